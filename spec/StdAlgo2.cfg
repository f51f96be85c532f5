SPECIFICATION Spec
CONSTANTS P = 2
  N = 3

INVARIANTS Consistent NeverStuck AtEnd
PROPERTIES Decreasing Terminates
CHECK_DEADLOCK FALSE
