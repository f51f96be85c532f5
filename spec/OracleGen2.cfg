SPECIFICATION Spec
CONSTANTS P = 3
  Depth = 2
  Bases = {"vnew"}
CHECK_DEADLOCK FALSE
INVARIANT Emit
