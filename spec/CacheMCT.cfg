SPECIFICATION Spec
CONSTANTS P = 2
  Iters = {1, 2}
  MaxLen = 8
  Terms0 <- T3
VIEW View
INVARIANTS AtMostOnce CanGoOn
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
