----------------------------- MODULE SamplerObs -----------------------------
(* What one sampler iteration may do to a forest, over training rows X.                                     *)
EXTENDS Forest
RowsUnder(T, X, h) == {i \in 1..Len(X) : Under(h, Route(T, X[i]))}
Enough(T, X, h, ml) == LET c == Cardinality(RowsUnder(T, X, h)) IN c >= 1 /\ c >= ml
\* N is P with one more split (at h, a leaf of P)
GrownAt(P, N, h) == /\ h \in Leaves(P) /\ h \in LeafParents(N) /\ Shape(Collapse(N, h, <<0>>)) = Shape(P)
PrunedAt(P, N, h) == h \in LeafParents(P) /\ Shape(Collapse(P, h, <<0>>)) = Shape(N)
\* one MCMC step of one tree: w are the selection weights, ml the minimum leaf size
McmcStep(P, N, X, w, ml) ==
  \/ Shape(N) = Shape(P)
  \/ \E h \in Leaves(P) : GrownAt(P, N, h) /\ w[N[h].f + 1] # 0 /\ Enough(N, X, 2*h, ml) /\ Enough(N, X, 2*h+1, ml)
  \/ \E h \in LeafParents(P) : PrunedAt(P, N, h)
\* a tree grown from its root: ft are the feature types (0 numeric, 1 ordered, 2 unordered categorical in the library's order KIND)
KindOK(n, ft, X, R) ==
  LET f == n.f + 1 seen == {X[i][f] : i \in R} IN
  IF ft[f] = "unordered" THEN n.k = "cat" /\ n.c # {} /\ \A c \in n.c : (c * SC) \in seen
  ELSE n.k = "num" /\ n.t \in seen
GfrTree(T, X, ft, w, ml) ==
  /\ WellFormed(T)
  /\ \A h \in Splits(T) : /\ w[T[h].f + 1] # 0
                          /\ KindOK(T[h], ft, X, RowsUnder(T, X, h))
                          /\ Enough(T, X, 2*h, ml) /\ Enough(T, X, 2*h+1, ml)
=============================================================================
