------------------------------ MODULE SplitObs ------------------------------
(* What a candidate split is weighed by.  Every row i has an integer weight K[i] (inverse variance), outcome   *)
(* y[i] and basis B[i]; the statistic of a set of rows is their number, the entries of sum k b b' and of        *)
(* sum k y b.  F (the log marginal likelihood of a statistic, fixed point) is given as a finite table.          *)
EXTENDS Forest, SequencesExt
Pairs(d) == [q \in 1..((d * (d + 1)) \div 2) |-> CHOOSE p \in (1..d) \X (1..d) : p[1] <= p[2] /\ q = ((p[2] * (p[2] - 1)) \div 2) + p[1]]
SumOver(R, g(_)) == LET s == SetToSeq(R) IN FoldLeft(LAMBDA a, r : a + g(r), 0, s)
Stat(R, K, y, B) == LET d == Len(B[1]) IN
  <<Cardinality(R)>> \o [q \in 1..((d * (d + 1)) \div 2) |-> LET p == Pairs(d)[q] IN SumOver(R, LAMBDA r : K[r] * B[r][p[1]] * B[r][p[2]])]
  \o [i \in 1..d |-> SumOver(R, LAMBDA r : K[r] * y[r] * B[r][i])]
AddStat(s, t) == [i \in DOMAIN s |-> s[i] + t[i]]
SubStat(s, t) == [i \in DOMAIN s |-> s[i] - t[i]]
LeftRows(R, X, f, rule) == {r \in R : GoesLeft(rule, X[r][f])}
=============================================================================
