SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4  Vals = {1}  P = 2  Metric = FALSE
CONSTANT Free = {}
INVARIANTS OmegaOK CellsOK ChainComplex BarsOK FastOK
