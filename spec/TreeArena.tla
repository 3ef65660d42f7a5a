------------------------------ MODULE TreeArena -----------------------------
(* The storage scheme of a tree: node ids from an allocator that re-uses freed ids (last freed first),   *)
(* parent/child links, and the explicit lists of leaves, internal nodes and parents of two leaves.       *)
(* Checked against the abstract tree of TreeEdit for every history within the bounds; `hist` is the      *)
(* history of operations, hidden by the VIEW, printed per transition so that each transition of this     *)
(* model becomes one test of the implementation.                                                         *)
EXTENDS TreeEdit, Json
CONSTANTS MaxHeap, Rules, Vals, MaxOps, Emit
VARIABLES node, nn, free, leaves, internal, lp, hist
avars == <<node, nn, free, leaves, internal, lp>>
view == <<trees, node, nn, free, leaves, internal, lp>>

\* node: id -> [par, l, r, kind-or-rule, v]
Blank == [par |-> -1, l |-> -1, r |-> -1, n |-> Leaf(<<0>>)]
AInit == /\ trees = (0 :> Stump(<<0>>)) /\ dims = (0 :> 1)
         /\ node = (0 :> Blank) /\ nn = 1 /\ free = <<>>
         /\ leaves = {0} /\ internal = {} /\ lp = {} /\ hist = <<>>
RECURSIVE HeapOfId(_, _)
HeapOfId(nd, i) == IF nd[i].par = -1 THEN 1
                   ELSE LET p == nd[i].par IN IF nd[p].l = i THEN 2 * HeapOfId(nd, p) ELSE 2 * HeapOfId(nd, p) + 1
RECURSIVE ReachFrom(_, _)
ReachFrom(nd, i) == IF nd[i].l = -1 THEN {i} ELSE {i} \cup ReachFrom(nd, nd[i].l) \cup ReachFrom(nd, nd[i].r)
Reach == ReachFrom(node, 0)
IdAt(h) == CHOOSE i \in Reach : HeapOfId(node, i) = h
\* allocation of two nodes: <<left id, right id, remaining free list, node count>>
Alloc2 == IF Len(free) >= 2 THEN <<free[Len(free)], free[Len(free)-1], SubSeq(free, 1, Len(free)-2), nn>>
          ELSE <<nn, nn+1, free, nn+2>>
AExpand(i, rule, a, b) ==
  LET q == Alloc2  L == q[1]  R == q[2]  p == node[i].par IN
  /\ node' = (L :> [par |-> i, l |-> -1, r |-> -1, n |-> Leaf(a)]) @@ (R :> [par |-> i, l |-> -1, r |-> -1, n |-> Leaf(b)])
             @@ (i :> [node[i] EXCEPT !.l = L, !.r = R, !.n = rule]) @@ node
  /\ free' = q[3] /\ nn' = q[4]
  /\ leaves' = (leaves \ {i}) \cup {L, R}
  /\ internal' = internal \cup {i}
  /\ lp' = (lp \cup {i}) \ (IF p = -1 THEN {} ELSE {p})
\* collapsing a node frees its descendants bottom-up, left before right
RECURSIVE FreeOrder(_, _)
FreeOrder(nd, i) == IF nd[i].l = -1 THEN <<>>
                    ELSE FreeOrder(nd, nd[i].l) \o FreeOrder(nd, nd[i].r) \o <<nd[i].l, nd[i].r>>
ACollapse(i, v) ==
  LET gone == Range(FreeOrder(node, i))  p == node[i].par
      nd == (i :> [node[i] EXCEPT !.l = -1, !.r = -1, !.n = Leaf(v)]) @@ node IN
  /\ node' = nd /\ free' = free \o FreeOrder(node, i) /\ nn' = nn
  /\ leaves' = (leaves \ gone) \cup {i}
  /\ internal' = internal \ (gone \cup {i})
  /\ lp' = (lp \ (gone \cup {i})) \cup (IF p # -1 /\ nd[nd[p].l].l = -1 /\ nd[nd[p].r].l = -1 THEN {p} ELSE {})
ASet(i, v) == node' = [node EXCEPT ![i].n = Leaf(v)] /\ UNCHANGED <<free, nn, leaves, internal, lp>>

RuleJson(r) == IF r.k = "num" THEN [feat |-> r.f, thr |-> r.t] ELSE [feat |-> r.f, cats |-> r.c]
OpExpand == Len(hist) < MaxOps /\ \E h \in Leaves(trees[0]), r \in Rules, v \in Vals :
   /\ 2*h+1 <= MaxHeap
   /\ DoExpand(0, h, r, <<v>>, <<v+1>>)
   /\ AExpand(IdAt(h), r, <<v>>, <<v+1>>)
   /\ hist' = Append(hist, [op |-> "expand", node |-> h, rule |-> RuleJson(r), lv |-> <<v>>, rv |-> <<v+1>>])
OpCollapse == Len(hist) < MaxOps /\ \E h \in Splits(trees[0]), v \in Vals :
   /\ DoCollapse(0, h, <<v>>) /\ ACollapse(IdAt(h), <<v>>)
   /\ hist' = Append(hist, [op |-> "collapse", node |-> h, v |-> <<v>>])
OpChange == Len(hist) < MaxOps /\ \E h \in LeafParents(trees[0]), v \in Vals :
   /\ DoChange(0, h, <<v>>) /\ ACollapse(IdAt(h), <<v>>)
   /\ hist' = Append(hist, [op |-> "change_to_leaf", node |-> h, v |-> <<v>>])
OpSet == Len(hist) < MaxOps /\ \E h \in Leaves(trees[0]), v \in Vals :
   /\ DoSetLeaf(0, h, <<v>>) /\ ASet(IdAt(h), <<v>>)
   /\ hist' = Append(hist, [op |-> "set_leaf", node |-> h, v |-> <<v>>])
ANext == OpExpand \/ OpCollapse \/ OpChange \/ OpSet
ASpec == AInit /\ [][ANext]_<<tvars, avars, hist>>
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)

\* refinement: the arena stands for the abstract tree and its lists agree with it
Heap(i) == HeapOfId(node, i)
InvWell == WellFormed(trees[0])
InvAbs == /\ {Heap(i) : i \in Reach} = DOMAIN trees[0]
          /\ \A i \in Reach : trees[0][Heap(i)] = node[i].n
          /\ \A i \in Reach : node[i].l # -1 => node[node[i].l].par = i /\ node[node[i].r].par = i
InvLists == /\ {Heap(i) : i \in leaves} = Leaves(trees[0]) /\ leaves \subseteq Reach
            /\ {Heap(i) : i \in internal} = Splits(trees[0]) /\ internal \subseteq Reach
            /\ {Heap(i) : i \in lp} = LeafParents(trees[0]) /\ lp \subseteq Reach
InvFree == /\ Range(free) \cap Reach = {} /\ Range(free) \cup Reach = 0..(nn-1)
           /\ Len(free) = Cardinality(Range(free))
=============================================================================
