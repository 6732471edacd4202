SPECIFICATION Spec
INVARIANT Done
VIEW View
CHECK_DEADLOCK FALSE
