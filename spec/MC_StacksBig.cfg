SPECIFICATION Spec
CONSTANTS IdSize = 8 MaxFrames = 2 MaxHeld = 2 MaxRoots = 0
CONSTANT Pool <- MyPool
VIEW View
INVARIANT Wellformed
INVARIANT ShownAsItWas
INVARIANT Printed
CHECK_DEADLOCK FALSE
