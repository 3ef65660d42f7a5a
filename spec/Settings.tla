------------------------------ MODULE Settings ------------------------------
(* Settling the settings of a fit and handing them to the parts of the model.  A value is represented by what it has  *)
(* come from: the slots given by the caller, defaults (a default is named by a minus sign and its slot) and the data. *)
(* Calibrated settings are settled in any order; a part is handed its settings once all of them are settled.           *)
EXTENDS SettingsObs, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS Kind, Few, Fault, Emit
VARIABLES given, val, got
sv == <<given, val, got>>
S == Slots(Kind)
Given0 == UNION {kSubset(k, S) \cup kSubset(Cardinality(S) - k, S) : k \in 0..Few}
Omitted(s) == <<"-", s>>
User(s) == <<"+", s>>
\* where a slot takes its value from in the faulty variants
Src(s) == IF Fault = "othertrees" /\ s = "scale2" THEN {"trees1"} ELSE IF Fault = "dropsq" /\ s = "lambda" THEN {"nu", "data"} ELSE Sources(s)
Slot(p, s) == IF Fault = "crossed" /\ p = "forest1" /\ s = "alpha1" /\ Kind = "bcf" THEN "alpha2" ELSE s
Init == /\ given \in Given0
        /\ val = [s \in (S \ Calibrated(Kind)) \cup (IF Fault = "overrides" THEN {} ELSE given) |-> IF s \in given THEN {User(s)} ELSE {Omitted(s)}]
        /\ got = [p \in {} |-> {}]
Ready(s) == \A x \in Src(s) \ {"data"} : x \in DOMAIN val
Calibrate(s) == /\ s \in Calibrated(Kind) \ DOMAIN val /\ Ready(s)
                /\ val' = [x \in DOMAIN val \cup {s} |-> IF x = s THEN {Omitted(s)} \cup UNION {IF y = "data" THEN {<<"data", "data">>} ELSE val[y] : y \in Src(s)} ELSE val[x]]
                /\ UNCHANGED <<given, got>>
HandOver(p) == /\ p \in Parts(Kind) \ DOMAIN got /\ \A s \in Handed(p) : s \in DOMAIN val
               /\ got' = [x \in DOMAIN got \cup {p} |-> IF x = p THEN [s \in Handed(p) |-> val[Slot(p, s)]] ELSE got[x]]
               /\ UNCHANGED <<given, val>>
DoCalibrate == \E s \in Calibrated(Kind) : Calibrate(s)
DoHandOver == \E p \in Parts(Kind) : HandOver(p)
Next == DoCalibrate \/ DoHandOver
Spec == Init /\ [][Next]_sv
\* what a slot means, whatever the order in which things are settled
RECURSIVE Meaning(_, _)
Meaning(G, s) == IF s \in G THEN {User(s)} ELSE {Omitted(s)} \cup UNION {IF y = "data" THEN {<<"data", "data">>} ELSE Meaning(G, y) : y \in Sources(s)}
InvMeaning == \A p \in DOMAIN got : \A s \in Handed(p) : got[p][s] = Meaning(given, s)
\* a given setting is used as it is, and nothing else stands in for it
InvGiven == \A p \in DOMAIN got : \A s \in Handed(p) \cap given : got[p][s] = {User(s)}
\* no setting of one forest reaches the other
InvApart == \A p \in DOMAIN got : \A s \in Handed(p) : \A t \in got[p][s] :
              (t[2] \in {Own(x, "2") : x \in OfForest} => p \in {"forest2", "leaf2"}) /\ (t[2] \in {Own(x, "1") : x \in OfForest} => p \in {"forest1", "leaf1"})
Table == TableRight
EmitTransition == Emit => (DOMAIN got' # Parts(Kind) \/ PrintT(<<"BEH", ToJson([given |-> SetToSeq(given)])>>))
=============================================================================
