SPECIFICATION Spec
CONSTANTS IdSize = 8 MaxCap = 4 Keys = {1, 2, 3} Starts = {0}
CONSTANT Pool <- MyPool
VIEW View
INVARIANT TableIsMap
INVARIANT Wellformed
INVARIANT ShownAsSet
INVARIANT EnvironmentToo
INVARIANT UpSince
INVARIANT HeapAsItIs
INVARIANT Printed
CHECK_DEADLOCK FALSE
