------------------------------ MODULE ConjObs -------------------------------
(* Conjugate draws.  A variance with prior IG(shape, scale) that has generated centred normal values x1..xn is      *)
(* drawn from IG(shape + n/2, scale + (x1^2 + .. + xn^2)/2): a value x adds 1/2 to the one and x^2/2 to the other.  *)
(* A coefficient vector with prior precision P0 and mean 0 that has generated values y with rows d and variance s   *)
(* is drawn from the normal with precision P = P0 + sum d d'/s and mean solving P m = sum d y / s.                   *)
(* Draws are judged by their standardised values: scale/draw has a gamma distribution with mean and variance shape, *)
(* (P x - sum d y / s)[i] has mean 0 and variance P[i][i].                                                           *)
EXTENDS Integers, Sequences, SequencesExt, Flt
\* standardised value of a draw v from IG(k, c)
FHalf == <<16384, 0 - 15>>
StdIG(k, c, v) == FDiv(FSub(FDiv(c, v), k), FSqrt(k))
PostShape(prior, n) == FAdd(prior, FFix(n, 1))
PostScale(prior, sumsq) == FAdd(prior, FMul(FHalf, sumsq))
\* tallies: number, sum and sum of squares of standardised values, in units of 1/256
NoDraws == <<0, 0, 0>>
Tally(t, u) == LET x == FToFix(u, 8) IN <<t[1] + 1, t[2] + x, t[3] + (x * x) \div 256>>
Plausible(u) == FAbsI(FToFix(u, 8)) <= 20 * 256
\* average within five and a half standard errors of 0, mean square within seven of 1 (kurtosis of the values at most 7)
Fair(t) == /\ FAbsI(t[2]) <= 11 * 32 * ISqrt(16 * t[1]) + t[1]
           /\ FAbsI(t[3] - 256 * t[1]) <= 7 * 157 * ISqrt(16 * t[1]) + 6 * t[1]
\* the part of a standardised value that points away from zero, where the data pull towards s
Along(s, u) == IF s[1] < 0 THEN FNeg(u) ELSE u
Enough == 200
=============================================================================
