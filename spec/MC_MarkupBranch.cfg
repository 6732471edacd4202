SPECIFICATION Spec
CONSTANTS Items = 1 Deep = 2 Variant = "branch" Drop = FALSE
INVARIANT Accepted
INVARIANT Path
CHECK_DEADLOCK FALSE
