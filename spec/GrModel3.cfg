SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3  Vals = {1, 2}  P = 2  Metric = FALSE
CONSTANT Free = {}
INVARIANTS OmegaOK CellsOK ChainComplex BarsOK FastOK
