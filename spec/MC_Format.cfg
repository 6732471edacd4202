SPECIFICATION Spec
CONSTANTS MaxArgs = 2 MaxDims = 2 MaxPrinted = 1
INVARIANT RoundTrip
INVARIANT NoPrefix
INVARIANT Printed
CHECK_DEADLOCK FALSE
