SPECIFICATION Spec
CONSTANTS P = 3
  N = 4
  TopDim = 2
  LowDim = 0
INVARIANTS Consistent NeverStuck AtEnd
PROPERTIES Decreasing Terminates
CHECK_DEADLOCK FALSE
