SPECIFICATION Spec
CONSTANTS MaxKey = 3 MaxPuts = 6 Batches = {1, 2, 3, 5} Less <- NatLess
INVARIANT StoreInv
INVARIANT NothingLost
INVARIANT RefusedWhenBackwards
INVARIANT Inside
INVARIANT RightAnswer
INVARIANT Printed
PROPERTY Shorter
CHECK_DEADLOCK FALSE
