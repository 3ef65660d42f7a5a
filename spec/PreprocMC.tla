------------------------------ MODULE PreprocMC -----------------------------
EXTENDS Preproc
View == pv
=============================================================================
