SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 6  M = 5
INVARIANTS RoundTrip NonZero
