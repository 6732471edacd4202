SPECIFICATION Spec
CONSTANTS IdSize = 4 MaxFrames = 2 MaxHeld = 1 MaxRoots = 0
CONSTANT Pool <- MyPool
VIEW View
INVARIANT Wellformed
INVARIANT ShownAsItWas
INVARIANT Printed
CHECK_DEADLOCK FALSE
