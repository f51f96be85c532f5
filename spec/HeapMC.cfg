SPECIFICATION Spec
CONSTANTS
 Rows = {0, 1, 2}
 Filt <- FiltDef
 P = 3
 MaxSize = 5
INVARIANTS Represents Leading PeekFresh DrainOK DrainFastOK
CHECK_DEADLOCK FALSE
