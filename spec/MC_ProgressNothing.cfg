SPECIFICATION Spec
CONSTANTS Sizes = {12} Ends = {12} Ticks = 1 Clamped = TRUE Item = 1 Buffer = 1 Shows = "nothing"
VIEW View
INVARIANT ProgressInv
INVARIANT NeverCrashes
INVARIANT StopsBeforePrinting
CHECK_DEADLOCK FALSE
