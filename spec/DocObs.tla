------------------------------- MODULE DocObs -------------------------------
(* What a model document holds: under every key <<folder, name>> (folder "" for the top level) the value last stored *)
(* there, with its type; and the forests and random-effects terms in the order they were added, each under its own   *)
(* label. A value is a record [ty, v]; v stands for the exact bits.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewDoc == [at |-> <<>>, forests |-> <<>>, rfx |-> <<>>]
DocKeys(d) == DOMAIN d.at
DocPut(d, k, x) == [d EXCEPT !.at = [q \in DOMAIN d.at \cup {k} |-> IF q = k THEN x ELSE d.at[q]]]
DocForest(d, f) == [d EXCEPT !.forests = Append(@, f)]
DocRfx(d, r) == [d EXCEPT !.rfx = Append(@, r)]
ForestLabel(i) == "forest_" \o ToString(i - 1)
=============================================================================
