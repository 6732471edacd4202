SPECIFICATION Spec
CONSTANTS Items = 2 Deep = 2 Variant = "good" Drop = FALSE
INVARIANT Accepted
INVARIANT Path
CHECK_DEADLOCK FALSE
