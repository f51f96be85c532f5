SPECIFICATION Spec
CONSTANTS P = 2
  N = 3
VIEW View
INVARIANTS Unique
CHECK_DEADLOCK FALSE
