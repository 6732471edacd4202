SPECIFICATION Spec
CONSTANTS MaxRuns = 3 MaxChanges = 1 MaxHarms = 2 MaxSteps = 2 Versions = {1, 2, 3} Bad = {3} Together = 2
INVARIANT Printed
INVARIANT Undisturbed
CHECK_DEADLOCK FALSE
