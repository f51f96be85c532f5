SPECIFICATION GSpec
CONSTANTS P = 2
  N = 6
  TopDim = 2
  LowDim = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
