SPECIFICATION Spec
CONSTANTS MaxItems = 1 Cuts = TRUE Few = FALSE
INVARIANT FoundAgain
INVARIANT BadRefused
INVARIANT Sound
INVARIANT CutRefused
CHECK_DEADLOCK FALSE
