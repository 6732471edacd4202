SPECIFICATION Spec
CONSTANTS Items = 1 Deep = 2 Variant = "row" Drop = FALSE
INVARIANT Accepted
INVARIANT Path
CHECK_DEADLOCK FALSE
