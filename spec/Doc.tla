--------------------------------- MODULE Doc --------------------------------
(* The document as it is kept: one object whose members are values, folders (objects of values), and the folder      *)
(* "forests" with its counter. Storing looks a member up and assigns it, or creates it (and its folder). Files hold  *)
(* a copy of the whole object. `want` is what the history of calls describes (DocObs).                               *)
EXTENDS DocObs, Json
CONSTANTS Docs, Keys, Types, Vals, Forests, MaxOps, Emit
VARIABLES tree, file, want, fwant, hist
dv == <<tree, file, want, fwant>>
Empty == [x \in {} |-> 0]
NewTree == [vals |-> Empty, dirs |-> Empty, forests |-> Empty, n |-> 0]
Set(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Assign(t, k, x) == IF k[1] = "" THEN [t EXCEPT !.vals = Set(@, k[2], x)]
                   ELSE [t EXCEPT !.dirs = Set(@, k[1], Set(IF k[1] \in DOMAIN t.dirs THEN t.dirs[k[1]] ELSE Empty, k[2], x))]
Has(t, k) == IF k[1] = "" THEN k[2] \in DOMAIN t.vals ELSE k[1] \in DOMAIN t.dirs /\ k[2] \in DOMAIN t.dirs[k[1]]
Fetch(t, k) == IF k[1] = "" THEN t.vals[k[2]] ELSE t.dirs[k[1]][k[2]]
NoFile == [vals |-> Empty, dirs |-> Empty, forests |-> Empty, n |-> -1]
Init == tree = [d \in Docs |-> NewTree] /\ file = NoFile /\ want = [d \in Docs |-> NewDoc] /\ fwant = NewDoc /\ hist = <<>>
Log(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)
Store == \E d \in Docs, k \in Keys, ty \in Types, v \in Vals :
  /\ tree' = [tree EXCEPT ![d] = Assign(@, k, [ty |-> ty, v |-> v])] /\ want' = [want EXCEPT ![d] = DocPut(@, k, [ty |-> ty, v |-> v])]
  /\ UNCHANGED <<file, fwant>> /\ Log([op |-> "store", d |-> d, sub |-> k[1], name |-> k[2], ty |-> ty, v |-> v])
AddForest == \E d \in Docs, f \in Forests :
  /\ tree' = [tree EXCEPT ![d].forests = Set(@, ForestLabel(tree[d].n + 1), f), ![d].n = @ + 1] /\ want' = [want EXCEPT ![d] = DocForest(@, f)]
  /\ UNCHANGED <<file, fwant>> /\ Log([op |-> "forest", d |-> d, f |-> f])
Save == \E d \in Docs : file' = tree[d] /\ fwant' = want[d] /\ UNCHANGED <<tree, want>> /\ Log([op |-> "save", d |-> d, file |-> 0])
Load == \E d \in Docs : file.n >= 0 /\ tree' = [tree EXCEPT ![d] = file] /\ want' = [want EXCEPT ![d] = fwant] /\ UNCHANGED <<file, fwant>> /\ Log([op |-> "load", d |-> d, file |-> 0])
Next == Store \/ AddForest \/ Save \/ Load
Spec == Init /\ [][Next]_<<dv, hist>>
InvValues == \A d \in Docs, k \in Keys : (Has(tree[d], k) <=> k \in DocKeys(want[d])) /\ (k \in DocKeys(want[d]) => Fetch(tree[d], k) = want[d].at[k])
InvForests == \A d \in Docs : tree[d].n = Len(want[d].forests) /\ \A i \in DOMAIN want[d].forests : tree[d].forests[ForestLabel(i)] = want[d].forests[i]
\* storing under one name of one document disturbs no other
Independent == [][\A d \in Docs, k \in Keys : Cardinality({e \in Docs : want'[e] # want[e]}) <= 1]_dv
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)
=============================================================================
