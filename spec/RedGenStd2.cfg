SPECIFICATION GSpec
CONSTANTS P = 2
  N = 3

INVARIANT Emit
CHECK_DEADLOCK FALSE
