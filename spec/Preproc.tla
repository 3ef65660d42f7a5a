------------------------------- MODULE Preproc ------------------------------
(* One preprocessor used again and again: fitted on tables (forgetting everything from before), applied to tables *)
(* with any categories.  "seen" remembers the encodings handed out since the last fit.                             *)
EXTENDS PreprocObs, Json
CONSTANTS Langs, Kinds, NCols, Vals, MaxOps, Emit
VARIABLES lang, cols, seen, n, hist
pv == <<lang, cols, seen, n>>
CatLists == {s \in UNION {[1..m -> Vals] : m \in 1..2} : Cardinality({s[i] : i \in DOMAIN s}) = Len(s)}
Columns == {[kind |-> k, cats |-> c, ft |-> 0] : k \in Kinds \ {"num", "skip"}, c \in CatLists} \cup {[kind |-> k, cats |-> <<>>, ft |-> 0] : k \in Kinds \cap {"num", "skip"}}
Tables == UNION {[1..m -> Columns] : m \in 1..NCols}
Init == lang \in Langs /\ cols = <<>> /\ seen = {} /\ n = 0 /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Fit == n < MaxOps /\ n' = n + 1 /\ \E t \in Tables : (cols' = t /\ Log([op |-> "fit", lang |-> lang, cols |-> t])) /\ seen' = {} /\ UNCHANGED lang
\* a table with one row of any values, seen in training or not; Python refuses unknown categories
Apply == /\ n < MaxOps /\ n' = n + 1 /\ cols # <<>> /\ UNCHANGED <<lang, cols>>
         /\ \E row \in [DOMAIN cols -> Vals] : /\ Log([op |-> "apply", row |-> row])
                                             /\ seen' = (IF lang = "py" /\ ~SeenRow(cols, row) THEN seen ELSE seen \cup {<<row, EncRow(lang, cols, row)>>})
Next == Fit \/ Apply
Spec == Init /\ [][Next]_<<pv, hist>>
InvLayout == cols # <<>> => /\ Len(EncTypes(lang, cols)) = Len(EncSource(lang, cols))
                            /\ \A p \in seen : Len(p[2]) = Len(EncTypes(lang, cols))
\* equal rows have equal encodings, and encodings tell apart all values of supported columns that were seen in training
Kept(row) == [i \in DOMAIN row |-> IF cols[i].kind = "skip" THEN 0 ELSE IF cols[i].kind = "num" \/ IndexIn(cols[i].cats, row[i]) # 0 THEN row[i] ELSE 0 - 1]
InvFaithful == \A p, q \in seen : (p[2] = q[2]) <=> (Kept(p[1]) = Kept(q[1]))
\* exactly one indicator is on per unordered column
InvOneHot == \A p \in seen : \A i \in DOMAIN cols : cols[i].kind = "cat" =>
   LET c == Cell(lang, cols[i], p[1][i]) IN Cardinality({k \in DOMAIN c : c[k] = 1}) = 1
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)
=============================================================================
