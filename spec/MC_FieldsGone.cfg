SPECIFICATION Spec
CONSTANTS IdSize = 8 MaxClasses = 2 MaxPuts = 1 Gone = TRUE
CONSTANT Pool <- MyPool
CONSTANT Lists <- ManyLists
VIEW View
INVARIANT Wellformed
INVARIANT ReadAsWritten
INVARIANT ByTypeToo
INVARIANT Covered
INVARIANT Printed
CHECK_DEADLOCK FALSE
