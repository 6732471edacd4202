SPECIFICATION Spec
CONSTANTS IdSize = 8 MaxFrames = 4 MaxHeld = 0 MaxRoots = 0
CONSTANT Pool <- MyPool
VIEW View
INVARIANT Wellformed
INVARIANT ShownAsItWas
INVARIANT Printed
CHECK_DEADLOCK FALSE
