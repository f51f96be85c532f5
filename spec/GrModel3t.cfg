SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3  Vals = {1, 2, 3}  P = 3  Metric = FALSE
CONSTANT Free = {}
INVARIANTS OmegaOK CellsOK ChainComplex BarsOK FastOK
