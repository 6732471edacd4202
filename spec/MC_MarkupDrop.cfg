SPECIFICATION Spec
CONSTANTS Items = 1 Deep = 1 Variant = "good" Drop = TRUE
INVARIANT Refused
INVARIANT Path
CHECK_DEADLOCK FALSE
