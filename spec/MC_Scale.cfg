SPECIFICATION Spec
CONSTANTS MaxRuns = 2
 Counts = {1, 3, 4, 11}
 Batch = 3
 Flushes = TRUE
 Forgets = TRUE
INVARIANTS Bounded Flat Printed
PROPERTY Refines
CHECK_DEADLOCK FALSE
