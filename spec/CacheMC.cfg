SPECIFICATION Spec
CONSTANTS P = 3
  Iters = {1, 2}
  MaxLen = 7
  Terms0 <- T2
VIEW View
INVARIANTS AtMostOnce CanGoOn
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
