SPECIFICATION Spec
CONSTANTS IdSize = 4 MaxCap = 2 Keys = {1, 2, 3} Starts = {59001}
CONSTANT Pool <- MyPool
VIEW View
INVARIANT TableIsMap
INVARIANT Wellformed
INVARIANT ShownAsSet
INVARIANT EnvironmentToo
INVARIANT UpSince
INVARIANT HeapAsItIs
INVARIANT Printed
CHECK_DEADLOCK FALSE
