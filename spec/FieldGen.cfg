SPECIFICATION Spec
VIEW View
INVARIANT Fermat
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
