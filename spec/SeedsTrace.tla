----------------------------- MODULE SeedsTrace -----------------------------
(* Trace specification of repeated runs (SeedsObs): events start(run, key), step(run, out), and whole fits that       *)
(* report whether the caller's objects are what they were.                                                           *)
EXTENDS SeedsObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, table, runs
vars == <<l, table, runs>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
SetAt(f, k, x) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]]
TStart == IsEvent("start") /\ runs' = SetAt(runs, Ev.r, [key |-> Ev.k, pos |-> 0]) /\ UNCHANGED table
TStep == IsEvent("step") /\ LET r == runs[Ev.r] IN
  /\ Agrees(table, r.key, r.pos + 1, Ev.out)
  /\ table' = Learn(table, r.key, r.pos + 1, Ev.out)
  /\ runs' = [runs EXCEPT ![Ev.r].pos = @ + 1]
\* the caller's data after a run, compared with a copy made before it
TData == IsEvent("data") /\ Ev.same /\ UNCHANGED <<table, runs>>
TraceInit == l = 1 /\ table = <<>> /\ runs = <<>>
TraceNext == TStart \/ TStep \/ TData
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
