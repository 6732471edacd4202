SPECIFICATION Spec
CONSTANTS Names = {1, 9, 10, 11, 30} Counts = {6, 7, 10} Sizes = {7, 13} MaxRows = 3 Gap = 10 Variant = "good"
INVARIANT LinesUp
INVARIANT Printed
PROPERTY Ends
CHECK_DEADLOCK FALSE
