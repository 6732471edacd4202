SPECIFICATION Spec
CONSTANTS Sizes = {0, 2, 4} Ends = {0, 2, 4} Ticks = 2 Clamped = TRUE Item = 1 Buffer = 2 Shows = "position"
VIEW View
INVARIANT ProgressInv
INVARIANT NeverCrashes
INVARIANT StopsBeforePrinting
INVARIANT Printed
PROPERTY RunEnds
CHECK_DEADLOCK FALSE
