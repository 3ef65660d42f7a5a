----------------------------- MODULE PreprocTrace ---------------------------
(* Trace specification of covariate preprocessing: t[k] is preprocessor k (its language, columns and layout).      *)
EXTENDS PreprocObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t
vars == <<l, t>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
TBegin == IsEvent("begin") /\ t' = <<>>
\* types and sources as reported after fitting
TFit == /\ IsEvent("fit") /\ Ev.types = EncTypes(Ev.lang, Ev.cols) /\ (Ev.hassource => Ev.source = EncSource(Ev.lang, Ev.cols))
        /\ t' = [x \in DOMAIN t \cup {Ev.t} |-> IF x = Ev.t THEN [lang |-> Ev.lang, cols |-> Ev.cols] ELSE t[x]]
\* a row with unseen ordered categories may get any code that no seen category has
CellFits(lang, col, v, got) == IF col.kind = "ord" /\ IndexIn(col.cats, v) = 0 THEN Len(got) = 1 /\ \A c \in Range(col.cats) : got # Cell(lang, col, c)
                               ELSE IF lang = "py" /\ col.kind = "cat" /\ IndexIn(col.cats, v) = 0 THEN Len(got) = Len(col.cats) /\ \A c \in Range(col.cats) : got # Cell(lang, col, c)
                               ELSE got = Cell(lang, col, v)
RowFits(p, row, got) == LET o == LayOrder(p.lang, p.cols)
                            at(q) == FoldLeft(LAMBDA a, i : a + ColWidth(p.lang, p.cols[o[i]]), 0, [i \in 1..(q - 1) |-> i]) IN
  /\ Len(got) = Len(EncTypes(p.lang, p.cols))
  /\ \A q \in DOMAIN o : CellFits(p.lang, p.cols[o[q]], row[o[q]], SubSeq(got, at(q) + 1, at(q + 1)))
TApply == /\ IsEvent("apply") /\ UNCHANGED t
          /\ LET p == t[Ev.t] IN
             /\ Len(Ev.out) = Len(Ev.rows) /\ \A i \in DOMAIN Ev.rows : RowFits(p, Ev.rows[i], Ev.out[i])
             /\ (Ev.hassource => Ev.source = EncSource(p.lang, p.cols))
\* refusing is only an answer to categories that were not there in training
TRefuse == IsEvent("refuse") /\ UNCHANGED t /\ t[Ev.t].lang = "py" /\ \E i \in DOMAIN Ev.rows : ~SeenRow(t[Ev.t].cols, Ev.rows[i])
TraceInit == l = 1 /\ t = <<>>
TraceNext == TBegin \/ TFit \/ TApply \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
