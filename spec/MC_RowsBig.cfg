SPECIFICATION Spec
CONSTANTS IdSize = 8 MaxObjects = 5 Sorts = {1, 2, 3, 4, 6, 7, 9, 10, 11}
CONSTANT Pool <- MyPool
VIEW View
INVARIANT Wellformed
INVARIANT RowsAreThere
INVARIANT TotalsAreSums
INVARIANT OrderIsTotal
INVARIANT SharesFit
INVARIANT Printed
CHECK_DEADLOCK FALSE
