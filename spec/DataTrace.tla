------------------------------ MODULE DataTrace -----------------------------
(* Trace specification of datasets, residuals and random-effects datasets: mem[b] is the caller's memory, have[d] what *)
(* the object must hold: covariates X, basis B, weights W, residual R, random-effects basis GB, labels GL, weights GW. *)
EXTENDS DataObs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mem, have
vars == <<l, mem, have>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
SetAt(f, k, x) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]]
Holds(d) == IF d \in DOMAIN have THEN have[d] ELSE <<>>
TBegin == IsEvent("begin") /\ mem' = <<>> /\ have' = <<>>
TMem == IsEvent("mem") /\ mem' = SetAt(mem, Ev.b, Ev.cells) /\ UNCHANGED have
TWrite == IsEvent("write") /\ mem' = [mem EXCEPT ![Ev.b][Ev.i + 1] = Ev.v] /\ UNCHANGED have
TPut == IsEvent("put") /\ InMemory(mem[Ev.b], Ev.view) /\ have' = SetAt(have, Ev.d, SetAt(Holds(Ev.d), Ev.f, ViewRows(mem[Ev.b], Ev.view))) /\ UNCHANGED mem
\* replacing the basis needs one of as many columns
Replaceable == "B" \in DOMAIN Holds(Ev.d) /\ Len(have[Ev.d]["B"][1]) = Ev.view.p
TReplace == IsEvent("replace") /\ Replaceable /\ have' = [have EXCEPT ![Ev.d]["B"] = ViewRows(mem[Ev.b], Ev.view)] /\ UNCHANGED mem
TRefuse == IsEvent("refuse") /\ ~Replaceable /\ UNCHANGED <<mem, have>>
\* what the object holds, and what it says about its size
THeld == /\ IsEvent("held") /\ UNCHANGED <<mem, have>>
         /\ {Ev.fields[i].f : i \in DOMAIN Ev.fields} = DOMAIN Holds(Ev.d)
         /\ \A i \in DOMAIN Ev.fields : Ev.fields[i].rows = have[Ev.d][Ev.fields[i].f]
         /\ \A i \in DOMAIN Ev.sizes : LET z == Ev.sizes[i] IN
              z.k = (IF z.f \notin DOMAIN Holds(Ev.d) THEN 0 ELSE IF z.what = "rows" THEN Len(have[Ev.d][z.f]) ELSE Len(have[Ev.d][z.f][1]))
TraceInit == l = 1 /\ mem = <<>> /\ have = <<>>
TraceNext == TBegin \/ TMem \/ TWrite \/ TPut \/ TReplace \/ TRefuse \/ THeld
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
