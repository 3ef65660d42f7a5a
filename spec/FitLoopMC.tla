----------------------------- MODULE FitLoopMC ------------------------------
EXTENDS FitLoop
Small == {0 - 1, 0, 2}
CodeSet == {0 - 1, 1, 3}
=============================================================================
