SPECIFICATION GSpec
CONSTANTS P = 3
  N = 2

INVARIANT Emit
CHECK_DEADLOCK FALSE
