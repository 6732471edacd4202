SPECIFICATION Spec
CONSTANTS IdSize = 4 MaxCap = 1 Keys = {4} Starts = {0, 58500, 59001, 60000}
CONSTANT Pool <- MyPool
VIEW View
INVARIANT TableIsMap
INVARIANT Wellformed
INVARIANT ShownAsSet
INVARIANT EnvironmentToo
INVARIANT UpSince
INVARIANT HeapAsItIs
INVARIANT Printed
CHECK_DEADLOCK FALSE
