SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4  Vals = {1, 2, 3}  P = 2  Metric = FALSE
CONSTANT Free = {1, 13, 2, 23, 3}
INVARIANTS OmegaOK CellsOK ChainComplex BarsOK FastOK
