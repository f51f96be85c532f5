-------------------------------- MODULE HeapMC ---------------------------------
EXTENDS HeapModel
\* row 1 is born before row 0, rows 1 and 2 at the same time
FiltDef(r) == CASE r = 0 -> 2 [] r = 1 -> 1 [] r = 2 -> 1 [] OTHER -> 0
================================================================================
