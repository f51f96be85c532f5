SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5  Vals = {1, 2}  P = 2  K = 0
INVARIANTS Emit
