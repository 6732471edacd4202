SPECIFICATION Spec
CONSTANTS IdSize = 4 MaxClasses = 3 MaxPuts = 0 Gone = FALSE
CONSTANT Pool <- MyPool
CONSTANT Lists <- FewLists
VIEW View
INVARIANT Wellformed
INVARIANT ReadAsWritten
INVARIANT ByTypeToo
INVARIANT Covered
INVARIANT Printed
CHECK_DEADLOCK FALSE
