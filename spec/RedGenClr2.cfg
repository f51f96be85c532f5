SPECIFICATION GSpec
CONSTANTS P = 2
  N = 5
  TopDim = 2
  LowDim = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
