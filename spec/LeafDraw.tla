------------------------------ MODULE LeafDraw ------------------------------
(* The oracle of LeafObs against its definition: over every small data set, tree shape and pair of variances,    *)
(* the stated centre minimises  sum k (y - b m)^2 / sigma^2 + m^2 / tau  over the rows of its leaf.              *)
EXTENDS LeafObs
CONSTANTS MaxN, Ys, Ks, Bs, Taus, Sigs
YVals == {0 - 1, 0, 2}
BVals == {0 - 1, 2}
VARIABLES X, y, K, B, t, T, par
vars == <<X, y, K, B, t, T, par>>
RowsAt(h) == {r \in DOMAIN X : Route(T, X[r]) = h}
StatAt(h) == Stat(RowsAt(h), K, y, B)
Init == /\ \E n \in 1..MaxN : /\ X \in [1..n -> {<<0>>, <<SC>>}] /\ y \in [1..n -> Ys] /\ K \in [1..n -> Ks] /\ B \in [1..n -> {<<b>> : b \in Bs}]
        /\ t \in [tn : Taus, td : {1}, sn : Sigs, sd : {1}] /\ T = Stump(<<0>>) /\ par = <<>>
Split == T = Stump(<<0>>) /\ par = <<>> /\ T' = Expand(T, 1, Num(0, 0), <<0>>, <<0>>) /\ UNCHANGED <<X, y, K, B, t, par>>
Draw == par = <<>> /\ par' = [h \in Leaves(T) |-> <<MeanNum(StatAt(h), t), Den(StatAt(h), t)>>] /\ UNCHANGED <<X, y, K, B, t, T>>
Next == Split \/ Draw
Spec == Init /\ [][Next]_vars
\* tau * sum k (den y - b m)^2 + sigma^2 m^2 is smallest at m = num, among the neighbours m
Cost(h, den, m) == LET q == SetToSeq(RowsAt(h)) IN t.tn * FoldLeft(LAMBDA a, r : a + K[r] * (den * y[r] - B[r][1] * m) * (den * y[r] - B[r][1] * m), 0, q) + t.sn * m * m
InvCentre == par # <<>> => \A h \in Leaves(T) : LET num == par[h][1] den == par[h][2] IN
                den > 0 => \A e \in {-7, -3, -2, -1, 1, 2, 3, 7} : Cost(h, den, num) <= Cost(h, den, num + e)
\* the two limits: no noise - the fit of the rows; nothing else to lean on - zero
InvLimits == par # <<>> => \A h \in Leaves(T) : LET s == StatAt(h) IN /\ (t.sn = 0 => Wof(s) * par[h][1] = Vof(s) * par[h][2])
                                                                       /\ (RowsAt(h) = {} => par[h][1] = 0)
=============================================================================
