SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3} Versions = {1, 2, 3} Refused = {2} Files = 2 Kills = 1 Faults = 1 Changes = 1 Variant = "safe"
INVARIANT NamedIsComplete
INVARIANT PlacedIsComplete
INVARIANT NeverWrong
INVARIANT NoLitter
PROPERTY SeenByUser
PROPERTY EveryRunEnds
CHECK_DEADLOCK FALSE
