------------------------------ MODULE LeafObs ------------------------------
(* Where a leaf's parameter is drawn.  Univariate leaves (constant or one basis column), all in integers:       *)
(* prior variance tn/td, noise variance sn/sd; W = sum k b^2 and v = sum k y b over the leaf's rows.             *)
EXTENDS SplitObs
Wof(s) == s[2]
Vof(s) == s[3]
Mag(a) == IF a < 0 THEN 0 - a ELSE a
\* posterior mean is MeanNum / Den, posterior variance is (tn * sn) / Den
Den(s, t) == t.tn * Wof(s) * t.sd + t.sn * t.td
MeanNum(s, t) == t.tn * Vof(s) * t.sd
\* entry (i, j) of the basis cross product of a statistic with d basis columns
WEnt(s, i, j) == LET a == IF i < j THEN i ELSE j b == IF i < j THEN j ELSE i IN s[1 + ((b * (b - 1)) \div 2) + a]
VEnt(s, d, i) == s[1 + ((d * (d + 1)) \div 2) + i]
\* noiseless limit: the parameter solves the weighted normal equations (m in units of 1/S)
FitOK(s, d, m, S) == \A i \in 1..d :
  LET lhs == FoldLeft(LAMBDA a, j : a + WEnt(s, i, j) * m[j], 0, [j \in 1..d |-> j])
      slack == 2 + FoldLeft(LAMBDA a, j : a + 2 * Mag(WEnt(s, i, j)), 0, [j \in 1..d |-> j])
  IN Mag(lhs - S * VEnt(s, d, i)) <= slack
=============================================================================
