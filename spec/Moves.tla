------------------------------- MODULE Moves --------------------------------
(* The chain over trees that grow and prune moves make, explored from the single leaf. The posterior weight of a tree *)
(* is its prior times the product of the likelihoods of its leaves (here: any positive numbers). A proposal is taken  *)
(* with probability min(1, ratio); the ratios are computed the way a sampler does, from what it knows at the time.    *)
(* Invariant: they make the chain reversible, so that the posterior is what it settles at.                            *)
(* Variant: "right"; "inverted": the probabilities of the kinds of move are divided the wrong way round in prune       *)
(* ratios; "strict": a leaf of exactly twice the least size is not counted as one that can grow; "twigs": growing is   *)
(* taken to add a pair of leaves to prune, though the leaf may have been one of such a pair.                          *)
EXTENDS MovesObs
CONSTANTS Rows, Weights, AlphaN, AlphaD, Beta, MinLeaf, Variant
VARIABLE tree
Conf == [X |-> Rows, w |-> Weights, a |-> AlphaN, A |-> AlphaD, b |-> Beta, ml |-> MinLeaf]
Lik(R) == 1 + (SumOver([r \in RowsOf(Conf) |-> r * r], R) % 3)
\* fractions <<num, den>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(q) == LET g == Gcd(q[1], q[2]) IN <<q[1] \div g, q[2] \div g>>
Mul(p, q) == Red(<<Red(<<p[1], q[2]>>)[1] * Red(<<q[1], p[2]>>)[1], Red(<<q[1], p[2]>>)[2] * Red(<<p[1], q[2]>>)[2]>>)
Inv(q) == <<q[2], q[1]>>
Cap(q) == IF q[1] > q[2] THEN <<1, 1>> ELSE q
RECURSIVE Weight(_, _, _)
Weight(T, R, d) == IF T = <<>> THEN Mul(<<Lik(R), 1>>, <<Den(Conf, d) - AlphaN, Den(Conf, d)>>)
                   ELSE LET L == LeftOf(Conf, R, T[1], T[2])
                            rule == Mul(<<Weights[T[1]], SumOver(Weights, DOMAIN Weights)>>, <<Gap(Conf, R, T[1], T[2]), Width(Conf, R, T[1])>>)
                        IN Mul(Mul(<<AlphaN, Den(Conf, d)>>, rule), Mul(Weight(T[3], L, d + 1), Weight(T[4], R \ L, d + 1)))
Posterior(T) == Weight(T, RowsOf(Conf), 0)
Halves(T) == IF T = <<>> THEN 2 ELSE IF Variant = "strict" /\ ~\E h \in LeavesOf(Conf, T) : Cardinality(h.rows) > 2 * MinLeaf THEN 0 ELSE GrowHalves(Conf, T)
Grown(T, h, q) == Put(T, h.p, <<q[1], q[2], <<>>, <<>>>>)
Pruned(T, t) == Put(T, t.p, <<>>)
PosteriorOdds(R, f, v, d) == LET L == LeftOf(Conf, R, f, v) IN Mul(<<OddsNum(Conf, d), OddsDen(Conf, d)>>, Red(<<Lik(L) * Lik(R \ L), Lik(R)>>))
GrowRatio(T, h, q) ==
  LET N == Grown(T, h, q) IN
  Mul(PosteriorOdds(h.rows, q[1], q[2], Len(h.p)), Red(<<(2 - Halves(N)) * Cardinality(LeavesOf(Conf, T)), Halves(T) * (IF Variant = "twigs" THEN Cardinality(TwigsOf(Conf, T)) + 1 ELSE Cardinality(TwigsOf(Conf, N)))>>))
PruneRatio(T, t) ==
  LET k == IF Cardinality(LeavesOf(Conf, T)) = 2 THEN 2 ELSE 1
      steps == IF Variant = "inverted" THEN <<2 - Halves(T), 1>> ELSE <<k, 2 - Halves(T)>>
  IN Mul(Inv(PosteriorOdds(t.rows, t.f, t.v, Len(t.p))), Red(<<steps[1] * Cardinality(TwigsOf(Conf, T)), steps[2] * (Cardinality(LeavesOf(Conf, T)) - 1)>>))
GrowProb(T, h, q) == Mul(Mul(<<Halves(T), 2 * Cardinality(LeavesOf(Conf, T))>>, Mul(<<Weights[q[1]], SumOver(Weights, DOMAIN Weights)>>, <<Gap(Conf, h.rows, q[1], q[2]), Width(Conf, h.rows, q[1])>>)), Cap(GrowRatio(T, h, q)))
PruneProb(T, t) == Mul(<<2 - Halves(T), 2 * Cardinality(TwigsOf(Conf, T))>>, Cap(PruneRatio(T, t)))
Init == tree = <<>>
Grow == Halves(tree) > 0 /\ \E h \in LeavesOf(Conf, tree) : \E q \in Cuts(Conf, h.rows) : tree' = Grown(tree, h, q)
Prune == Halves(tree) < 2 /\ \E t \in TwigsOf(Conf, tree) : tree' = Pruned(tree, t)
Next == Grow \/ Prune
Spec == Init /\ [][Next]_tree
\* every move and the move back carry the same flow
InvBalanced == \A t \in TwigsOf(Conf, tree) :
  LET T == Pruned(tree, t) IN \A h \in {x \in LeavesOf(Conf, T) : x.p = t.p} :
    Mul(Posterior(tree), PruneProb(tree, t)) = Mul(Posterior(T), GrowProb(T, h, <<t.f, t.v>>))
\* a chain that can leave the single leaf can come back to it, and no leaf is too small
InvSizes == \A h \in LeavesOf(Conf, tree) : tree = <<>> \/ Cardinality(h.rows) >= MinLeaf
\* whatever may be split will be considered for it
InvFree == (\E h \in LeavesOf(Conf, tree) : Cuts(Conf, h.rows) # {}) => Halves(tree) > 0
\* drawing a split of a node afresh: under a flat likelihood a node is split with its prior probability
Fresh(R, d) == LET K == Cardinality(Cuts(Conf, R)) IN [split |-> K * AlphaN, none |-> K * (Den(Conf, d) - AlphaN)]
InvFresh == \A h \in LeavesOf(Conf, tree) : LET q == Fresh(h.rows, Len(h.p)) IN q.split * Den(Conf, Len(h.p)) = AlphaN * (q.split + q.none)
=============================================================================
