SPECIFICATION Spec
CONSTANTS
 Rows = {0, 1}
 P = 2
 MaxSize = 2
 MaxLen = 7
 TwoHeaps = TRUE
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
