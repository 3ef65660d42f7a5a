------------------------------ MODULE SamplerMC -----------------------------
EXTENDS Sampler
MCX == <<<<0, 0>>, <<SC, SC>>, <<2*SC, 0>>>>
MCY == <<5, -3, 2>>
MCRules == {Num(0, 0), Num(0, SC), Cat(1, {1}), Num(0, 2*SC)}
MCFT == <<"numeric", "unordered">>
MCW == <<1, 1>>
=============================================================================
