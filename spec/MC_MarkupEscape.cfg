SPECIFICATION Spec
CONSTANTS Items = 1 Deep = 2 Variant = "escape" Drop = FALSE
INVARIANT Accepted
INVARIANT Path
CHECK_DEADLOCK FALSE
