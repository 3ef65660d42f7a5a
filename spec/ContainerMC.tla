----------------------------- MODULE ContainerMC ----------------------------
(* Storage model of a forest collection: slots refer to separately owned ensembles; copying a sample must  *)
(* produce a new ensemble.  `want` is what the history of operations describes.  Each transition is         *)
(* printed (Emit) and replayed in the real ForestContainer.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSamples, MaxOps, Emit, KeepsRoot   \* KeepsRoot: what is saved includes a forest that no sample has started from yet
VARIABLES slots, heap, want, root, start, hist      \* root: the stored forest to start from (0 none), start: the one asked for
cv == <<slots, heap, want, root, start>>
view == cv
Init == slots = <<>> /\ heap = [r \in {} |-> 0] /\ want = <<>> /\ root = 0 /\ start = 0 /\ hist = <<>>
Live == {slots[i] : i \in DOMAIN slots}
NewRef == CHOOSE r \in 1..(MaxSamples + 1) : r \notin Live
Log(o) == hist' = Append(hist, o)
Go == Len(hist) < MaxOps
Put(h, r, v) == [x \in (DOMAIN h \cup {r}) |-> IF x = r THEN v ELSE h[x]]
Add == Go /\ Len(slots) < MaxSamples /\ slots' = Append(slots, NewRef) /\ heap' = Put(heap, NewRef, 0) /\ want' = Append(want, 0) /\ root' = 0 /\ start' = 0
       /\ Log([op |-> "add_samples", num |-> 1])
Copy == Go /\ \E a, b \in DOMAIN slots : a # b
       /\ slots' = [slots EXCEPT ![a] = NewRef] /\ heap' = Put(heap, NewRef, heap[slots[b]]) /\ want' = [want EXCEPT ![a] = want[b]] /\ UNCHANGED <<root, start>>
       /\ Log([op |-> "copy_sample", new |-> a - 1, prev |-> b - 1])
Edit == Go /\ \E k \in DOMAIN slots, v \in 1..2 :
       /\ heap' = [heap EXCEPT ![slots[k]] = v] /\ want' = [want EXCEPT ![k] = v] /\ UNCHANGED <<slots, root, start>>
       /\ Log([op |-> "set_leaves", k |-> k - 1, v |-> <<v>>])
Begin == Go /\ slots = <<>> /\ root = 0 /\ \E v \in 1..2 : root' = v /\ start' = v /\ UNCHANGED <<slots, heap, want>> /\ Log([op |-> "init_root", v |-> <<v>>])
Take == Go /\ root # 0 /\ slots' = <<NewRef>> /\ heap' = Put(heap, NewRef, root) /\ want' = <<start>> /\ root' = 0 /\ start' = 0 /\ Log([op |-> "take_root"])
Reload == Go /\ root' = (IF KeepsRoot THEN root ELSE 0) /\ UNCHANGED <<slots, heap, want, start>> /\ Log([op |-> "forest_json", f2 |-> 0])
Next == Add \/ Copy \/ Edit \/ Begin \/ Take \/ Reload
Spec == Init /\ [][Next]_<<cv, hist>>
InvOwned == Cardinality(Live) = Len(slots)
InvContent == [i \in DOMAIN slots |-> heap[slots[i]]] = want /\ root = start
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)
\* append-only: an operation on one sample changes no other
AppendOnly == [][\A i \in DOMAIN want : want'[i] # want[i] => Cardinality({j \in DOMAIN want : want'[j] # want[j]}) = 1]_cv
=============================================================================
