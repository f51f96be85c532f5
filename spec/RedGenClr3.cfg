SPECIFICATION GSpec
CONSTANTS P = 3
  N = 4
  TopDim = 2
  LowDim = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
