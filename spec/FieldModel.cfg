SPECIFICATION Spec
CONSTANT QB = 3
INVARIANT Axioms
CHECK_DEADLOCK FALSE
