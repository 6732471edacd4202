SPECIFICATION Spec
CONSTANTS Names = {1, 9, 10, 11, 30} Counts = {6, 7, 10} Sizes = {7, 13} MaxRows = 2 Gap = 1 Variant = "last"
INVARIANT LinesUp
CHECK_DEADLOCK FALSE
