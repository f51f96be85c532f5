SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3  Vals = {0, 1, 2}  P = 2  Metric = TRUE
CONSTANT Free = {}
INVARIANTS OmegaOK CellsOK ChainComplex BarsOK FastOK
