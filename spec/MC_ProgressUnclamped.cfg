SPECIFICATION Spec
CONSTANTS Sizes = {2} Ends = {4} Ticks = 1 Clamped = FALSE Item = 1 Buffer = 1 Shows = "position"
VIEW View
INVARIANT ProgressInv
INVARIANT NeverCrashes
INVARIANT StopsBeforePrinting
CHECK_DEADLOCK FALSE
