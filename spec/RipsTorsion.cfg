SPECIFICATION Spec
INVARIANT Torsion
CHECK_DEADLOCK FALSE
