SPECIFICATION Spec
CONSTANTS P = 3
  N = 2

INVARIANTS Consistent NeverStuck AtEnd
PROPERTIES Decreasing Terminates
CHECK_DEADLOCK FALSE
