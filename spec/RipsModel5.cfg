SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5  Vals = {1, 2}  P = 3  K = 2
INVARIANTS Counting Transposed Transposed2 NoRepeats Squares Monotone Spanning OneComponent Sane
