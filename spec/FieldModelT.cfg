SPECIFICATION Spec
CONSTANT QB = 5
INVARIANT Axioms
CHECK_DEADLOCK FALSE
