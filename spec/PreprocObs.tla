----------------------------- MODULE PreprocObs -----------------------------
(* Encoding of covariate tables.  A column is [kind, cats, ft]: kind "num" passes its values through (with type   *)
(* ft), "ord" becomes the rank of its category, "cat" one indicator per training category, "skip" is left out.     *)
(* Cells of encoded tables are identities of exact numbers; the number k in 0..999 has identity k.                 *)
(* lang "py": columns stay in place, ranks from 0, no catch-all.  lang "r": numeric columns first, then ordered,   *)
(* then unordered, ranks from 1, one catch-all indicator per unordered column.                                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
IndexIn(s, v) == IF \E i \in DOMAIN s : s[i] = v THEN CHOOSE i \in DOMAIN s : s[i] = v ELSE 0
ColWidth(lang, col) == CASE col.kind = "skip" -> 0 [] col.kind = "cat" -> Len(col.cats) + (IF lang = "r" THEN 1 ELSE 0) [] OTHER -> 1
OfKind(cols, k) == SelectSeq([i \in DOMAIN cols |-> i], LAMBDA i : cols[i].kind = k)
\* the original columns in the order they are laid out
LayOrder(lang, cols) == IF lang = "py" THEN [i \in DOMAIN cols |-> i] ELSE OfKind(cols, "num") \o OfKind(cols, "ord") \o OfKind(cols, "cat")
Cell(lang, col, v) == LET p == IndexIn(col.cats, v) IN
  CASE col.kind = "skip" -> <<>>
    [] col.kind = "num" -> <<v>>
    [] col.kind = "ord" -> <<IF lang = "py" THEN p - 1 ELSE IF p = 0 THEN Len(col.cats) + 1 ELSE p>>
    [] OTHER -> [k \in 1..ColWidth(lang, col) |-> IF k = p \/ (p = 0 /\ lang = "r" /\ k = ColWidth(lang, col)) THEN 1 ELSE 0]
Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Lay(lang, cols, f(_)) == Concat([q \in DOMAIN LayOrder(lang, cols) |-> f(LayOrder(lang, cols)[q])])
EncRow(lang, cols, row) == Lay(lang, cols, LAMBDA i : Cell(lang, cols[i], row[i]))
EncTypes(lang, cols) == Lay(lang, cols, LAMBDA i : [k \in 1..ColWidth(lang, cols[i]) |-> IF cols[i].kind = "num" THEN cols[i].ft ELSE 1])
\* original column of every encoded one (from 0 in Python, from 1 in R)
EncSource(lang, cols) == Lay(lang, cols, LAMBDA i : [k \in 1..ColWidth(lang, cols[i]) |-> IF lang = "py" THEN i - 1 ELSE i])
SeenRow(cols, row) == \A i \in DOMAIN cols : cols[i].kind \in {"ord", "cat"} => IndexIn(cols[i].cats, row[i]) # 0
=============================================================================
