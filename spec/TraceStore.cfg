SPECIFICATION Spec
CONSTANT Less <- LexLt
VIEW View
INVARIANT StoreInv
INVARIANT Done
CHECK_DEADLOCK FALSE
