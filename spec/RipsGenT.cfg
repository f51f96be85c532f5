SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4  Vals = {0, 1, 2, 3}  P = 2  K = 0
INVARIANTS Emit
