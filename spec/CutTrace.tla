------------------------------ MODULE CutTrace ------------------------------
(* Trace specification: bins computed by the library for nodes of trees grown by hand.                        *)
EXTENDS Forest, CutObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, X, y, ft, T
vars == <<l, X, y, ft, T>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
TBegin == IsEvent("begin") /\ X' = Ev.X /\ y' = Ev.y /\ ft' = Ev.ft /\ T' = Stump(<<0>>)
TSplit == IsEvent("split") /\ Ev.node \in Leaves(T)
   /\ T' = Expand(T, Ev.node, IF "cats" \in DOMAIN Ev THEN Cat(Ev.feat, Range(Ev.cats)) ELSE Num(Ev.feat, Ev.thr), <<0>>, <<0>>) /\ UNCHANGED <<X, y, ft>>
TReset == IsEvent("reset") /\ T' = Stump(<<0>>) /\ UNCHANGED <<X, y, ft>>
TResid == IsEvent("resid") /\ y' = Ev.y /\ UNCHANGED <<X, ft, T>>
TCut == IsEvent("cut") /\ UNCHANGED <<X, y, ft, T>> /\ LET f == Ev.feat + 1 rows == Ev.rows IN
   /\ IsList(rows, {i - 1 : i \in {q \in 1..Len(X) : Route(T, X[q]) = Ev.node}})
   /\ LET x == [i \in DOMAIN rows |-> X[rows[i] + 1][f]] o == [i \in DOMAIN rows |-> y[rows[i] + 1]]
          bins == [k \in DOMAIN Ev.bins |-> [b |-> Ev.bins[k].b, len |-> Ev.bins[k].len, v |-> Ev.bins[k].v, vec |-> Range(Ev.bins[k].vec)]]
      IN /\ \A i \in 1..(Len(x) - 1) : x[i] <= x[i+1]
         /\ BinsOK(ft[f], x, o, Ev.grid, bins, SC)
         /\ \A k \in DOMAIN Ev.bins : Ev.bins[k].e = Ev.bins[k].b + Ev.bins[k].len
TraceInit == l = 1 /\ X = <<>> /\ y = <<>> /\ ft = <<>> /\ T = <<>>
TraceNext == TBegin \/ TSplit \/ TReset \/ TResid \/ TCut
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
