SPECIFICATION Spec
CONSTANTS MaxArgs = 3 MaxDims = 1 MaxPrinted = 2
INVARIANT RoundTrip
INVARIANT NoPrefix
INVARIANT Printed
CHECK_DEADLOCK FALSE
