SPECIFICATION Spec
CONSTANTS MaxItems = 2 Cuts = FALSE Few = FALSE
INVARIANT FoundAgain
INVARIANT BadRefused
INVARIANT Sound
INVARIANT Printed
CHECK_DEADLOCK FALSE
