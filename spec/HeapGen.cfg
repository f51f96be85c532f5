SPECIFICATION Spec
CONSTANTS
 Rows = {0, 1, 2}
 P = 3
 MaxSize = 4
 MaxLen = 7
 TwoHeaps = FALSE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
