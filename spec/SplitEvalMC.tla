----------------------------- MODULE SplitEvalMC ----------------------------
EXTENDS SplitEval
BasisConst == {<<1>>}
BasisUni == {<<0 - 1>>, <<2>>}
BasisMulti == {<<1, 0 - 1>>, <<0, 2>>}
=============================================================================
