SPECIFICATION Spec
CONSTANTS P = 2
  Depth = 3
  Bases = {"vnew"}
CHECK_DEADLOCK FALSE
INVARIANT Emit
