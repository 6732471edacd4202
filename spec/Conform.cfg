SPECIFICATION Spec
VIEW View
ALIAS Where
INVARIANT IndexInv
INVARIANT Done
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
