SPECIFICATION Spec
CONSTANTS P = 3
  Depth = 1
  Bases = {"vowned", "vborrowed", "vcow", "vnew", "allone", "mowned", "mref", "custom"}
CHECK_DEADLOCK FALSE
INVARIANT Emit
