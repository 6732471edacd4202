SPECIFICATION Spec
CONSTANTS Sizes = {4} Ends = {4} Ticks = 1 Clamped = TRUE Item = 1 Buffer = 1 Shows = "double"
VIEW View
INVARIANT ProgressInv
INVARIANT NeverCrashes
INVARIANT StopsBeforePrinting
CHECK_DEADLOCK FALSE
