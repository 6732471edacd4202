SPECIFICATION Spec
CONSTANTS MaxItems = 3 Cuts = FALSE Few = TRUE
INVARIANT FoundAgain
INVARIANT BadRefused
INVARIANT Sound
CHECK_DEADLOCK FALSE
