SPECIFICATION Spec
CONSTANTS P = 3
  N = 2
VIEW View
INVARIANTS Unique
CHECK_DEADLOCK FALSE
