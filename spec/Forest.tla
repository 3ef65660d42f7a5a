------------------------------- MODULE Forest -------------------------------
(* Abstract trees, routing and prediction.  A tree is a function from heap positions (root 1, children  *)
(* of h at 2h and 2h+1) to nodes.  Feature values and thresholds are integers (fixed point, SC units     *)
(* per 1.0, which is exact for the values used); NA stands for a missing value.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SC == 1024
NA == -1073741824

Leaf(v)   == [k |-> "leaf", f |-> -1, t |-> 0, c |-> {}, v |-> v]
Num(f, t) == [k |-> "num",  f |-> f,  t |-> t, c |-> {}, v |-> <<>>]
Cat(f, c) == [k |-> "cat",  f |-> f,  t |-> 0, c |-> c,  v |-> <<>>]
Stump(v)  == [h \in {1} |-> Leaf(v)]

Leaves(T) == {h \in DOMAIN T : T[h].k = "leaf"}
Splits(T) == {h \in DOMAIN T : T[h].k # "leaf"}
LeafParents(T) == {h \in Splits(T) : T[2*h].k = "leaf" /\ T[2*h+1].k = "leaf"}
RECURSIVE Depth(_)
Depth(h) == IF h = 1 THEN 0 ELSE 1 + Depth(h \div 2)
RECURSIVE Under(_, _)
Under(a, h) == IF h < a THEN FALSE ELSE IF h = a THEN TRUE ELSE Under(a, h \div 2)

WellFormed(T) ==
  /\ 1 \in DOMAIN T
  /\ \A h \in DOMAIN T : h # 1 => ((h \div 2) \in DOMAIN T /\ T[h \div 2].k # "leaf")
  /\ \A h \in Splits(T) : 2*h \in DOMAIN T /\ 2*h+1 \in DOMAIN T
  /\ Cardinality(Leaves(T)) = Cardinality(Splits(T)) + 1

Expand(T, h, rule, lv, rv) ==
  [x \in DOMAIN T \cup {2*h, 2*h+1} |-> IF x = h THEN rule ELSE IF x = 2*h THEN Leaf(lv)
                                        ELSE IF x = 2*h+1 THEN Leaf(rv) ELSE T[x]]
Collapse(T, h, v) ==
  [x \in {y \in DOMAIN T : y = h \/ ~Under(h, y)} |-> IF x = h THEN Leaf(v) ELSE T[x]]
SetLeaf(T, h, v) == [T EXCEPT ![h] = Leaf(v)]
SetAllLeaves(T, v) == [x \in DOMAIN T |-> IF T[x].k = "leaf" THEN Leaf(v) ELSE T[x]]

\* same splits, leaf parameters ignored
Shape(T) == [h \in DOMAIN T |-> IF T[h].k = "leaf" THEN "leaf" ELSE T[h]]

----------------------------------------------------------------------------
(* routing and prediction *)
GoesLeft(n, x) == \/ x = NA
                  \/ n.k = "num" /\ x <= n.t
                  \/ n.k = "cat" /\ x >= 0 /\ (x \div SC) \in n.c
RECURSIVE RouteFrom(_, _, _)
RouteFrom(T, row, h) == IF T[h].k = "leaf" THEN h
                        ELSE RouteFrom(T, row, IF GoesLeft(T[h], row[T[h].f + 1]) THEN 2*h ELSE 2*h+1)
Route(T, row) == RouteFrom(T, row, 1)
LeafOf(T, row) == T[Route(T, row)].v

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE DotFrom(_, _, _)
DotFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + DotFrom(a, b, i+1)
Dot(a, b) == DotFrom(a, b, 1)
\* contribution of one tree to a row: parameter times basis, or the parameter itself for constant leaves
TreeFit(T, row, basis, const) == IF const THEN LeafOf(T, row)[1] ELSE Dot(LeafOf(T, row), basis)
RECURSIVE FitFrom(_, _, _, _, _, _)
FitFrom(F, row, basis, const, j, last) == IF j > last THEN 0 ELSE TreeFit(F[j], row, basis, const) + FitFrom(F, row, basis, const, j+1, last)
ForestFit(F, row, basis, const) == FitFrom(F, row, basis, const, 1, Len(F))
RECURSIVE RawFrom(_, _, _, _, _)
RawFrom(F, row, m, j, last) == IF j > last THEN 0 ELSE LeafOf(F[j], row)[m] + RawFrom(F, row, m, j+1, last)
ForestRaw(F, row, m) == RawFrom(F, row, m, 1, Len(F))

----------------------------------------------------------------------------
(* the implementation's arena of nodes, as logged, and its abstraction *)
Range(s) == {s[i] : i \in DOMAIN s}
NodeAt(d) == [i \in {d.nodes[k].id : k \in DOMAIN d.nodes} |-> d.nodes[CHOOSE k \in DOMAIN d.nodes : d.nodes[k].id = i]]
RECURSIVE HeapMap(_, _, _)
HeapMap(m, id, h) == IF m[id].l = -1 THEN (id :> h)
                     ELSE (id :> h) @@ HeapMap(m, m[id].l, 2*h) @@ HeapMap(m, m[id].r, 2*h+1)
NodeOf(n) == IF n.isleaf THEN Leaf(n.leaf) ELSE IF n.ty = "num" THEN Num(n.feat, n.thr) ELSE Cat(n.feat, Range(n.cats))
RECURSIVE AbsAt(_, _, _)
AbsAt(m, id, h) == IF m[id].l = -1 THEN (h :> NodeOf(m[id]))
                   ELSE (h :> NodeOf(m[id])) @@ AbsAt(m, m[id].l, 2*h) @@ AbsAt(m, m[id].r, 2*h+1)
\* the abstract tree an arena stands for
Abs(d) == AbsAt(NodeAt(d), 0, 1)
AbsForest(ds) == [j \in DOMAIN ds |-> Abs(ds[j])]
HeapIds(d) == HeapMap(NodeAt(d), 0, 1)

IsList(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)
\* everything an arena reports about itself agrees with its shape
Consistent(d) ==
  /\ d.walk
  /\ LET m == NodeAt(d)
         H == HeapMap(m, 0, 1)
         T == AbsAt(m, 0, 1)
         Ids(S) == {i \in DOMAIN m : H[i] \in S}
     IN /\ WellFormed(T)
        /\ Cardinality(DOMAIN m) = Cardinality(DOMAIN T)
        /\ \A i \in DOMAIN m :
             LET n == m[i] h == H[i] IN
             /\ i >= 0 /\ i < d.nn
             /\ n.isleaf = (T[h].k = "leaf")
             /\ n.ty = T[h].k
             /\ n.isroot = (h = 1)
             /\ n.depth = Depth(h)
             /\ n.par = IF h = 1 THEN -1 ELSE CHOOSE q \in DOMAIN m : H[q] = h \div 2
             /\ n.isleaf => n.rawr = -1 /\ Len(n.leaf) = d.dim /\ (d.dim > 1 => n.vec = n.leaf)
             /\ n.islp = (h \in LeafParents(T))
        /\ IsList(d.leaves, Ids(Leaves(T)))
        /\ IsList(d.internal, Ids(Splits(T)))
        /\ IsList(d.lp, Ids(LeafParents(T)))
        /\ d.nleaves = Cardinality(Leaves(T))
        /\ d.nlp = Cardinality(LeafParents(T))
        /\ d.nsplit = Cardinality(Splits(T))
        /\ d.nvalid = Cardinality(DOMAIN T)
        /\ d.ndel = d.nn - Cardinality(DOMAIN T)
        /\ d.isroot = (Cardinality(DOMAIN T) = 1)
        /\ d.hasvec = (d.dim > 1)
        /\ (\E h \in DOMAIN T : T[h].k = "cat") => d.hascat
Agrees(d, T) == Consistent(d) /\ Abs(d) = T
AgreesForest(ds, F) == Len(ds) = Len(F) /\ \A j \in DOMAIN F : Agrees(ds[j], F[j])
RECURSIVE SumSqSet(_, _)
SumSqSet(T, S) == IF S = {} THEN 0 ELSE LET h == CHOOSE x \in S : TRUE IN Dot(T[h].v, T[h].v) + SumSqSet(T, S \ {h})
SumSquares(T) == SumSqSet(T, Leaves(T))
=============================================================================
