SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4  Vals = {1, 3}  P = 2  Metric = TRUE
CONSTANT Free = {1, 13, 2, 23, 3, 30}
INVARIANTS OmegaOK CellsOK ChainComplex BarsOK FastOK
