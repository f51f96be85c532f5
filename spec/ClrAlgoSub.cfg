SPECIFICATION Spec
CONSTANTS P = 2
  N = 5
  TopDim = 2
  LowDim = 1
INVARIANTS Consistent NeverStuck AtEnd
PROPERTIES Decreasing Terminates
CHECK_DEADLOCK FALSE
