------------------------------ MODULE MovesObs ------------------------------
(* Trees over rows of whole numbers, the moves between them, and the probabilities with which they are made.          *)
(* A tree is <<>> (a leaf) or <<feature, cut, left, right>>: rows with value at most `cut` go left; `cut` is the       *)
(* largest value in the node that goes left, so that trees with the same partitions are the same tree.               *)
(* A setting c has rows c.X, feature weights c.w, the prior c.a / c.A * (1 + depth)^-c.b of a node being split, and    *)
(* the least number of rows of a leaf, c.ml.                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RowsOf(c) == 1..Len(c.X)
VarsOf(c) == 1..Len(c.w)
Pow(x, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN x ELSE x * x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
LeftOf(c, R, f, v) == {r \in R : c.X[r][f] <= v}
RECURSIVE LeavesAt(_, _, _, _)
LeavesAt(c, T, R, p) == IF T = <<>> THEN {[p |-> p, rows |-> R]}
                        ELSE LET L == LeftOf(c, R, T[1], T[2]) IN LeavesAt(c, T[3], L, Append(p, 3)) \cup LeavesAt(c, T[4], R \ L, Append(p, 4))
LeavesOf(c, T) == LeavesAt(c, T, RowsOf(c), <<>>)
RECURSIVE TwigsAt(_, _, _, _)
TwigsAt(c, T, R, p) == IF T = <<>> THEN {}
                       ELSE IF T[3] = <<>> /\ T[4] = <<>> THEN {[p |-> p, rows |-> R, f |-> T[1], v |-> T[2]]}
                       ELSE LET L == LeftOf(c, R, T[1], T[2]) IN TwigsAt(c, T[3], L, Append(p, 3)) \cup TwigsAt(c, T[4], R \ L, Append(p, 4))
TwigsOf(c, T) == TwigsAt(c, T, RowsOf(c), <<>>)
RECURSIVE Put(_, _, _)
Put(T, p, S) == IF p = <<>> THEN S ELSE [T EXCEPT ![p[1]] = Put(T[p[1]], Tail(p), S)]
\* the rules a node with rows R can be split by, and the share of the range of the feature that leads to each
Values(c, R, f) == {c.X[r][f] : r \in R}
Cuts(c, R) == {q \in UNION {{<<f, v>> : v \in Values(c, R, f)} : f \in VarsOf(c)} :
                 q[2] # MaxOf(Values(c, R, q[1])) /\ LET n == Cardinality(LeftOf(c, R, q[1], q[2])) IN n >= c.ml /\ Cardinality(R) - n >= c.ml}
Gap(c, R, f, v) == MinOf({x \in Values(c, R, f) : x > v}) - v
Width(c, R, f) == MaxOf(Values(c, R, f)) - MinOf(Values(c, R, f))
\* halves of the probability of a grow move
CanGrow(c, T) == \E h \in LeavesOf(c, T) : Cardinality(h.rows) >= 2 * c.ml
GrowHalves(c, T) == IF T = <<>> THEN 2 ELSE IF CanGrow(c, T) THEN 1 ELSE 0
PruneHalves(c, T) == 2 - GrowHalves(c, T)
\* the prior odds of a split node with two leaves below to a leaf, at depth d:  p (1 - q)^2 / (1 - p)
Den(c, d) == c.A * Pow(1 + d, c.b)
OddsNum(c, d) == c.a * (Den(c, d + 1) - c.a) * (Den(c, d + 1) - c.a)
OddsDen(c, d) == (Den(c, d) - c.a) * Den(c, d + 1) * Den(c, d + 1)
=============================================================================
