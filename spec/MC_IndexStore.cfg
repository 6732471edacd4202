SPECIFICATION Spec
CONSTANTS MaxKey = 3 MaxPuts = 4 Batches = {1, 2, 3} Less <- NatLess
INVARIANT StoreInv
INVARIANT NothingLost
INVARIANT RefusedWhenBackwards
INVARIANT Inside
INVARIANT RightAnswer
INVARIANT Printed
PROPERTY Shorter
PROPERTY Ends
CHECK_DEADLOCK FALSE
