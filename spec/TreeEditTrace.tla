--------------------------- MODULE TreeEditTrace ----------------------------
(* Trace specification for recorded edit histories of real trees: every event must be an action of        *)
(* TreeEdit and every tree alive afterwards must agree, in every reported respect, with the model.        *)
EXTENDS TreeEdit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Rule(e) == IF "cats" \in DOMAIN e THEN Cat(e.feat, Range(e.cats)) ELSE Num(e.feat, e.thr)
\* all live trees, not only the edited one, agree with the model in the next state
Observe ==
  /\ {Ev.trees[i].t : i \in DOMAIN Ev.trees} = DOMAIN trees'
  /\ \A i \in DOMAIN Ev.trees : LET d == Ev.trees[i].tree t == Ev.trees[i].t IN
        /\ d.dim = dims'[t]
        /\ Agrees(d, trees'[t])
        /\ d.sumsq = SumSquares(trees'[t])
TBegin == IsEvent("begin") /\ trees' = [t \in {} |-> <<>>] /\ dims' = [t \in {} |-> 0]
TNew == (IsEvent("tree_new") \/ IsEvent("tree_reset_init") \/ IsEvent("tree_init")) /\ New(Ev.t, Ev.dim) /\ Observe
TExpand == IsEvent("expand") /\ DoExpand(Ev.t, Ev.node, Rule(Ev), Ev.lv, Ev.rv) /\ Observe
TCollapse == IsEvent("collapse") /\ DoCollapse(Ev.t, Ev.node, Ev.v) /\ Observe
TChange == IsEvent("change_to_leaf") /\ DoChange(Ev.t, Ev.node, Ev.v) /\ Observe
TSetLeaf == IsEvent("set_leaf") /\ DoSetLeaf(Ev.t, Ev.node, Ev.v) /\ Observe
TClone == IsEvent("clone") /\ DoClone(Ev.t, Ev.src) /\ Ev.eq /\ Observe
TReload == IsEvent("tree_json") /\ DoClone(Ev.t, Ev.src) /\ Ev.eq /\ Ev.resave /\ Observe
TraceInit == TInit /\ l = 1
TraceNext == TBegin \/ TNew \/ TExpand \/ TCollapse \/ TChange \/ TSetLeaf \/ TClone \/ TReload
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
