SPECIFICATION Spec
CONSTANT P = 2
INVARIANTS Laws2 Laws3
CHECK_DEADLOCK FALSE
