SPECIFICATION Spec
CONSTANTS Kinds = {0, 1, 2}
 Batch = 1000000
 Ahead = 100000
 Room = 26000
 Cell = 64
 Unit = 1024
 Window = 8192
 Factor = 12
INVARIANTS ScaleInv Done
VIEW View
CHECK_DEADLOCK FALSE
