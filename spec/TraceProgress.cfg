SPECIFICATION Spec
VIEW View
INVARIANT Done
CHECK_DEADLOCK FALSE
