SPECIFICATION Spec
CONSTANTS IdSize = 4 MaxObjects = 3 Sorts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
CONSTANT Pool <- MyPool
VIEW View
INVARIANT Wellformed
INVARIANT RowsAreThere
INVARIANT TotalsAreSums
INVARIANT OrderIsTotal
INVARIANT SharesFit
INVARIANT Printed
CHECK_DEADLOCK FALSE
