SPECIFICATION Spec
CONSTANTS Sizes = {0, 5, 8} Ends = {0, 8, 9} Ticks = 1 Clamped = TRUE Item = 1 Buffer = 2 Shows = "position"
VIEW View
INVARIANT ProgressInv
INVARIANT NeverCrashes
INVARIANT StopsBeforePrinting
INVARIANT Printed
PROPERTY RunEnds
CHECK_DEADLOCK FALSE
