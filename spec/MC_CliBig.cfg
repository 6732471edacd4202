SPECIFICATION Spec
CONSTANTS MaxItems = 3
INVARIANT Meaning
CHECK_DEADLOCK FALSE
