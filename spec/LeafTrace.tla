------------------------------ MODULE LeafTrace -----------------------------
(* Trace specification: leaf parameters drawn by the library in trees grown by hand or by the samplers.          *)
EXTENDS LeafObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, T, y
vars == <<l, c, T, y>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Rule(e) == IF "cats" \in DOMAIN e THEN Cat(e.feat, Range(e.cats)) ELSE Num(e.feat, e.thr)
StatAt(U, h) == Stat({r \in DOMAIN c.X : Route(U, c.X[r]) = h}, c.K, y, c.B)
D == Len(c.B[1])
TBegin == IsEvent("begin") /\ c' = Ev.c /\ y' = Ev.c.y /\ T' = Stump(<<0>>)
TResid == IsEvent("resid") /\ y' = Ev.y /\ UNCHANGED <<c, T>>
TSplit == IsEvent("split") /\ Ev.node \in Leaves(T) /\ T' = Expand(T, Ev.node, Rule(Ev), <<0>>, <<0>>) /\ UNCHANGED <<c, y>>
TPrune == IsEvent("prune") /\ Ev.node \in LeafParents(T) /\ T' = Collapse(T, Ev.node, <<0>>) /\ UNCHANGED <<c, y>>
\* the tree as found after a real sampler iteration: a list of [h, k, ...] nodes
Built(ns) == [h \in {ns[q].h : q \in DOMAIN ns} |-> LET e == ns[CHOOSE q \in DOMAIN ns : ns[q].h = h] IN
               IF e.k = "leaf" THEN Leaf(<<0>>) ELSE IF e.k = "num" THEN Num(e.feat, e.thr) ELSE Cat(e.feat, Range(e.cats))]
TTree == IsEvent("tree") /\ T' = Built(Ev.nodes) /\ WellFormed(Built(Ev.nodes)) /\ UNCHANGED <<c, y>>
EveryLeaf == {Ev.leaves[q].h : q \in DOMAIN Ev.leaves} = Leaves(T) /\ Len(Ev.leaves) = Cardinality(Leaves(T))
ForLeaves(P(_, _)) == \A q \in DOMAIN Ev.leaves : P(StatAt(T, Ev.leaves[q].h), Ev.leaves[q])
\* negligible noise: one draw
TFit == /\ IsEvent("fit") /\ UNCHANGED <<c, y, T>> /\ EveryLeaf
        /\ ForLeaves(LAMBDA s, e : s[1] > 0 => FitOK(s, D, e.mean, Ev.S))
\* negligible prior variance: one draw
TZero == /\ IsEvent("zero") /\ UNCHANGED <<c, y, T>> /\ EveryLeaf
         /\ ForLeaves(LAMBDA s, e : \A i \in DOMAIN e.mean : Mag(e.mean[i]) <= 1)
\* many draws, univariate: mean in units of 1/256 within 7 standard errors, variance (units 1/4096) within a quarter
TUni == /\ IsEvent("uni") /\ UNCHANGED <<c, y, T>> /\ EveryLeaf /\ D = 1
        /\ ForLeaves(LAMBDA s, e :
             LET den == Den(s, Ev.t) off == Mag(e.mean[1] - (256 * MeanNum(s, Ev.t)) \div den) o == IF off < 2 THEN 0 ELSE off - 2
                 var == (4096 * Ev.t.tn * Ev.t.sn) \div den
             IN /\ o < 2048 /\ o * o * den * (Ev.reps \div 50) <= 65536 * Ev.t.tn * Ev.t.sn
                /\ 4 * Mag(e.var[1] - var) <= var + 16)
\* many draws, vector leaves: exact mean, standard deviation and variance (units of 1/S) per statistic come with the event
TMulti == /\ IsEvent("multi") /\ UNCHANGED <<c, y, T>> /\ EveryLeaf
          /\ ForLeaves(LAMBDA s, e : LET q == CHOOSE q \in DOMAIN Ev.tab : Ev.tab[q].st = s IN
               \A i \in 1..D : /\ Mag(e.mean[i] - Ev.tab[q].mean[i]) <= 2 + Ev.tab[q].tol[i]
                               /\ 4 * Mag(e.var[i] - Ev.tab[q].var[i]) <= Ev.tab[q].var[i] + 16)
TraceInit == l = 1 /\ c = <<>> /\ T = <<>> /\ y = <<>>
TraceNext == TBegin \/ TResid \/ TSplit \/ TPrune \/ TTree \/ TFit \/ TZero \/ TUni \/ TMulti
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
