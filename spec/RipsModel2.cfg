SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4  Vals = {0, 1, 2}  P = 2  K = 2
INVARIANTS Counting Transposed Transposed2 NoRepeats Squares Monotone Spanning OneComponent Sane
