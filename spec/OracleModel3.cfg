SPECIFICATION Spec
CONSTANT P = 3
INVARIANTS Laws2 Laws3
CHECK_DEADLOCK FALSE
