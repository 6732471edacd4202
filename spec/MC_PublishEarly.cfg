SPECIFICATION Spec
CONSTANTS Procs = {1, 2} Versions = {1, 2} Refused = {2} Files = 2 Kills = 1 Faults = 1 Changes = 1 Variant = "early"
INVARIANT NamedIsComplete
INVARIANT PlacedIsComplete
INVARIANT NeverWrong
INVARIANT NoLitter
CHECK_DEADLOCK FALSE
