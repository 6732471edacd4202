SPECIFICATION Spec
CONSTANTS MaxItems = 2
INVARIANT Meaning
INVARIANT Printed
CHECK_DEADLOCK FALSE
