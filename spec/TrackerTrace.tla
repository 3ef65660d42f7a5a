---------------------------- MODULE TrackerTrace ----------------------------
(* Trace specification of split / prune / reset histories made to a forest together with its tracker.        *)
(* srt is the tree whose sorted listings are current (0: none): a reset starts them, a split that does not    *)
(* maintain them or any prune ends their use.                                                                 *)
EXTENDS TrackObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, F, X, srt
vars == <<l, F, X, srt>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Rule(e) == IF "cats" \in DOMAIN e THEN Cat(e.feat, Range(e.cats)) ELSE Num(e.feat, e.thr)
TBegin == IsEvent("begin") /\ F' = <<>> /\ X' = Ev.X /\ srt' = 0
\* all trees start at the root, sorted listings valid for whichever tree is split first
TSlot == IsEvent("slot") /\ F' = [j \in 1..Ev.trees |-> Stump(<<0>>)] /\ srt' = 1 /\ UNCHANGED <<X>>
TSplit == IsEvent("split") /\ LET j == Ev.j + 1 IN
   /\ Ev.node \in Leaves(F[j])
   /\ Ev.sorted => srt = j
   /\ F' = [F EXCEPT ![j] = Expand(@, Ev.node, Rule(Ev), Ev.lv, Ev.rv)]
   /\ srt' = IF Ev.sorted THEN srt ELSE IF srt = j THEN 0 ELSE srt
   /\ UNCHANGED <<X>>
TPrune == IsEvent("prune") /\ LET j == Ev.j + 1 IN
   /\ Ev.node \in Splits(F[j])
   /\ F' = [F EXCEPT ![j] = Collapse(@, Ev.node, Ev.v)]
   /\ srt' = IF srt = j THEN 0 ELSE srt
   /\ UNCHANGED <<X>>
TReset == IsEvent("reset") /\ F' = [F EXCEPT ![Ev.j + 1] = Stump(<<0>>)] /\ srt' = Ev.j + 1 /\ UNCHANGED <<X>>
\* a forest grown by a sampler: taken over as it is
TAdopt == IsEvent("adopt") /\ F' = AbsForest(Ev.trees) /\ (\A j \in DOMAIN Ev.trees : Consistent(Ev.trees[j])) /\ srt' = Ev.srt /\ UNCHANGED <<X>>
TDump == IsEvent("dump") /\ UNCHANGED <<F, X, srt>>
   /\ AgreesForest(Ev.trees, F)
   /\ ForestTracked(Ev.trees, F, Ev.trk, X, IF Ev.srt THEN srt ELSE 0)
   /\ (Ev.alt # <<>> => ForestTracked(Ev.trees, F, Ev.alt, X, IF Ev.srt THEN srt ELSE 0))
TraceInit == l = 1 /\ F = <<>> /\ X = <<>> /\ srt = 0
TraceNext == TBegin \/ TSlot \/ TSplit \/ TPrune \/ TReset \/ TAdopt \/ TDump
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
