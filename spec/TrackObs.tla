------------------------------ MODULE TrackObs ------------------------------
(* What a training tracker must report about a forest F on training rows X: the observable content of the   *)
(* invariants InvNode, InvSeg and InvSorted of Tracker.tla.                                                  *)
EXTENDS Forest
SameRows(s, S) == IsList(s, S)
\* d: arena of the tree, t: what the tracker reports for it, srtd: whether the sorted listings belong to this tree
TreeTracked(d, T, t, X, srtd) ==
  LET H == HeapIds(d)
      n == Len(X)
      R == [i \in 1..n |-> Route(T, X[i])]
      RowsAt(h) == {i - 1 : i \in {q \in 1..n : R[q] = h}}
      m == NodeAt(d)
  IN /\ Len(t.node) = n
     /\ \A i \in 1..n : t.node[i] \in DOMAIN H /\ H[t.node[i]] = R[i]
     /\ {t.segs[k].id : k \in DOMAIN t.segs} = {i \in DOMAIN H : H[i] \in Leaves(T)}
     /\ \A k \in DOMAIN t.segs : LET g == t.segs[k] S == RowsAt(H[g.id]) IN
          /\ SameRows(g.rows, S) /\ SameRows(g.rows2, S) /\ g.size = Cardinality(S) /\ g.span = Cardinality(S)
          /\ srtd => /\ Len(g.sorted) = Len(X[1])
                     /\ \A f \in DOMAIN g.sorted : LET q == g.sorted[f] IN
                          /\ SameRows(q.rows, S) /\ q.rows2 = q.rows /\ q.size = Cardinality(S) /\ q.span = Cardinality(S)
                          /\ \A a \in 1..(Len(q.rows) - 1) : X[q.rows[a] + 1][f] <= X[q.rows[a+1] + 1][f]
     /\ \A k \in DOMAIN t.links : LET q == t.links[k] IN
          IF q.id \in DOMAIN m THEN q.valid /\ q.leaf = m[q.id].isleaf /\ q.l = m[q.id].l /\ q.r = m[q.id].r /\ q.par = m[q.id].par
          ELSE ~q.valid
ForestTracked(ds, F, ts, X, srt) == Len(ts) = Len(F) /\ \A j \in DOMAIN F : TreeTracked(ds[j], F[j], ts[j], X, srt = j)
=============================================================================
