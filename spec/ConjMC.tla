------------------------------- MODULE ConjMC -------------------------------
EXTENDS Conj
ValsMC == {0 - 2, 0, 1, 3}
EffectsMC == {0 - 1, 0, 2}
=============================================================================
