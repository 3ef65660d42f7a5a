------------------------------ MODULE Tracker -------------------------------
(* Training-row bookkeeping.  One tree, its arena of reusable node ids, and the index structures that      *)
(* follow it: perm is a permutation of the rows in which every node owns a contiguous segment; node maps    *)
(* every row to the id of its leaf; srt[f]/sseg[f] are the same for the listings sorted by feature f.       *)
(* Entries of freed ids stay behind (as in the code) until the id is reused.                                *)
EXTENDS Forest, Json
CONSTANTS XS, Rules, MaxH, MaxOps, MaxIds, Emit
VARIABLES T, idOf, free, nn, perm, seg, node, srt, sseg, keep, X, n, hist
tv == <<T, idOf, free, nn, perm, seg, node, srt, sseg, keep, X, n>>
Rows == 1..Len(X)
Feats == 1..Len(X[1])

SelRows(s, P(_)) == SelectSeq(s, P)
\* insertion sort of rows by feature value (stable)
RECURSIVE InsertRow(_, _, _)
InsertRow(s, r, f) == IF s = <<>> THEN <<r>> ELSE IF X[r][f] < X[Head(s)][f] THEN <<r>> \o s ELSE <<Head(s)>> \o InsertRow(Tail(s), r, f)
RECURSIVE SortRows(_, _)
SortRows(k, f) == IF k = 0 THEN <<>> ELSE InsertRow(SortRows(k-1, f), k, f)
SortedBy(f) == SortRows(Len(X), f)

Slice(p, s) == SubSeq(p, s[1] + 1, s[1] + s[2])
\* stable partition of one segment of p; returns the new permutation and the size of the left part
Left(p, s, L(_)) == SelectSeq(Slice(p, s), L)
Right(p, s, L(_)) == SelectSeq(Slice(p, s), LAMBDA r : ~L(r))
Repart(p, s, L(_)) == SubSeq(p, 1, s[1]) \o Left(p, s, L) \o Right(p, s, L) \o SubSeq(p, s[1] + s[2] + 1, Len(p))

RootState ==
  /\ T = Stump(<<0>>) /\ idOf = (1 :> 0) /\ free = <<>> /\ nn = 1
  /\ perm = [i \in Rows |-> i] /\ seg = (0 :> <<0, Len(X)>>) /\ node = [i \in Rows |-> 0]
  /\ srt = [f \in Feats |-> SortedBy(f)] /\ sseg = [f \in Feats |-> (0 :> <<0, Len(X)>>)] /\ keep = TRUE
Init == X \in XS /\ n = 0 /\ RootState /\ hist = <<[op |-> "begin", X |-> X]>>
Log(o) == hist' = Append(hist, o)
RuleRec(r) == IF r.k = "num" THEN [feat |-> r.f, thr |-> r.t] ELSE [feat |-> r.f, cats |-> r.c]

Id1 == IF free = <<>> THEN nn ELSE free[Len(free)]
Free1 == IF free = <<>> THEN <<>> ELSE SubSeq(free, 1, Len(free) - 1)
Nn1 == IF free = <<>> THEN nn + 1 ELSE nn
Id2 == IF Free1 = <<>> THEN Nn1 ELSE Free1[Len(Free1)]
Split ==
  /\ n < MaxOps
  /\ \E h \in {x \in Leaves(T) : 2*x + 1 <= MaxH}, rule \in Rules, k \in BOOLEAN :
     LET a == idOf[h] l == Id1 r == Id2
         L(row) == GoesLeft(rule, X[row][rule.f + 1])
         s == seg[a]
         nl == Len(Left(perm, s, L))
     IN /\ k => keep
        /\ r < MaxIds
        /\ T' = Expand(T, h, rule, <<0>>, <<0>>)
        /\ idOf' = ((2*h) :> l) @@ ((2*h+1) :> r) @@ idOf
        /\ free' = (IF Free1 = <<>> THEN <<>> ELSE SubSeq(Free1, 1, Len(Free1) - 1))
        /\ nn' = (IF Free1 = <<>> THEN Nn1 + 1 ELSE Nn1)
        /\ perm' = Repart(perm, s, L)
        /\ seg' = (l :> <<s[1], nl>>) @@ (r :> <<s[1] + nl, s[2] - nl>>) @@ seg
        /\ node' = [i \in Rows |-> IF node[i] = a THEN (IF L(i) THEN l ELSE r) ELSE node[i]]
        /\ keep' = k
        /\ IF k THEN /\ srt' = [f \in Feats |-> Repart(srt[f], sseg[f][a], L)]
                     /\ sseg' = [f \in Feats |-> LET q == sseg[f][a] m == Len(Left(srt[f], q, L)) IN
                                                   (l :> <<q[1], m>>) @@ (r :> <<q[1] + m, q[2] - m>>) @@ sseg[f]]
                ELSE UNCHANGED <<srt, sseg>>
        /\ Log([op |-> "trk_split", node |-> h, rule |-> RuleRec(rule), sorted |-> k])
  /\ n' = n + 1 /\ UNCHANGED X
Prune ==
  /\ n < MaxOps
  /\ \E h \in Splits(T) :
     LET gone == {x \in DOMAIN T : x # h /\ Under(h, x)}
         T2 == Collapse(T, h, <<0>>)
         ids == {idOf[x] : x \in gone}
         RECURSIVE Sq(_)
         Sq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sq(S \ {m})
     IN /\ T' = T2 /\ idOf' = [x \in DOMAIN T2 |-> idOf[x]]
        /\ free' = free \o Sq(ids)
        /\ node' = [i \in Rows |-> IF node[i] \in ids THEN idOf[h] ELSE node[i]]
        /\ keep' = FALSE /\ UNCHANGED <<nn, perm, seg, srt, sseg>>
        /\ Log([op |-> "trk_prune", node |-> h])
  /\ n' = n + 1 /\ UNCHANGED X
Reset ==
  /\ n < MaxOps
  /\ T' = Stump(<<0>>) /\ idOf' = (1 :> 0) /\ free' = <<>> /\ nn' = 1
  /\ perm' = [i \in Rows |-> i] /\ seg' = (0 :> <<0, Len(X)>>) /\ node' = [i \in Rows |-> 0]
  /\ srt' = [f \in Feats |-> SortedBy(f)] /\ sseg' = [f \in Feats |-> (0 :> <<0, Len(X)>>)] /\ keep' = TRUE
  /\ n' = n + 1 /\ UNCHANGED X /\ Log([op |-> "trk_reset"])
Next == Split \/ Prune \/ Reset
Spec == Init /\ [][Next]_<<tv, hist>>
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)

RowsAt(h) == {i \in Rows : Route(T, X[i]) = h}
InvTree == WellFormed(T) /\ DOMAIN idOf = DOMAIN T /\ Cardinality({idOf[h] : h \in DOMAIN T}) = Cardinality(DOMAIN T)
           /\ {idOf[h] : h \in DOMAIN T} \cap Range(free) = {}
InvNode == \A i \in Rows : node[i] = idOf[Route(T, X[i])]
\* every valid node, internal ones too, owns the segment of exactly the rows below it
InvSeg == \A h \in DOMAIN T : Range(Slice(perm, seg[idOf[h]])) = {i \in Rows : Under(h, Route(T, X[i]))} /\ seg[idOf[h]][2] = Cardinality(Range(Slice(perm, seg[idOf[h]])))
InvSorted == keep => \A f \in Feats, h \in Leaves(T) :
   LET s == Slice(srt[f], sseg[f][idOf[h]]) IN Range(s) = RowsAt(h) /\ Len(s) = Cardinality(RowsAt(h)) /\ \A a \in 1..(Len(s)-1) : X[s[a]][f] <= X[s[a+1]][f]
=============================================================================
