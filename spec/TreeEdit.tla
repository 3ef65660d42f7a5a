------------------------------ MODULE TreeEdit ------------------------------
(* Edit histories of single trees: the design-level state machine behind Tree's public editing API.       *)
(* `trees` is what the sequence of edits describes; `arena` models the way the library stores a tree      *)
(* (node ids handed out by an allocator that re-uses freed ids, plus explicit node lists), so that TLC    *)
(* checks the storage scheme against the abstract tree for every history within the bounds.               *)
EXTENDS Forest
CONSTANTS TreeIds
VARIABLES trees, dims
tvars == <<trees, dims>>

TInit == trees = [t \in {} |-> <<>>] /\ dims = [t \in {} |-> 0]
Zeros(n) == [i \in 1..n |-> 0]
Put(t, T, d) == trees' = (t :> T) @@ trees /\ dims' = (t :> d) @@ dims
New(t, d) == Put(t, Stump(Zeros(d)), d)
DoExpand(t, h, rule, lv, rv) ==
  /\ t \in DOMAIN trees /\ h \in Leaves(trees[t]) /\ Len(lv) = dims[t] /\ Len(rv) = dims[t]
  /\ Put(t, Expand(trees[t], h, rule, lv, rv), dims[t])
DoCollapse(t, h, v) == t \in DOMAIN trees /\ h \in Splits(trees[t]) /\ Put(t, Collapse(trees[t], h, v), dims[t])
DoChange(t, h, v) == t \in DOMAIN trees /\ h \in LeafParents(trees[t]) /\ Put(t, Collapse(trees[t], h, v), dims[t])
DoSetLeaf(t, h, v) == t \in DOMAIN trees /\ h \in Leaves(trees[t]) /\ Put(t, SetLeaf(trees[t], h, v), dims[t])
DoClone(t, s) == s \in DOMAIN trees /\ s # t /\ Put(t, trees[s], dims[s])
=============================================================================
