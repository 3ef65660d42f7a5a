----------------------------- MODULE SplitTrace -----------------------------
(* Trace specification: evaluations of splits by the leaf models of the library.                               *)
EXTENDS SplitObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, T, y
vars == <<l, c, T, y>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Rule(e) == IF "cats" \in DOMAIN e THEN Cat(e.feat, Range(e.cats)) ELSE Num(e.feat, e.thr)
RowsOf(h) == {r \in DOMAIN c.X : Under(h, Route(T, c.X[r]))}
Near(a, b) == a - b <= 3 /\ b - a <= 3
\* log marginal likelihood of the rows R, from the table that comes with the event
Lookup(tab, s) == LET q == CHOOSE q \in DOMAIN tab : tab[q].st = s IN tab[q].v
Has(tab, s) == \E q \in DOMAIN tab : tab[q].st = s
F(tab, R) == LET s == Stat(R, c.K, y, c.B) IN IF Has(tab, s) THEN Lookup(tab, s) ELSE Assert(FALSE, <<"no entry for", s>>)
\* rows a split sends left during training
Goes(R, e) == LeftRows(R, c.X, e.feat + 1, Rule(e))
TBegin == IsEvent("begin") /\ c' = Ev.c /\ y' = Ev.c.y /\ T' = Stump(<<0>>)
TConf == IsEvent("conf") /\ c' = [c EXCEPT !.ml = Ev.ml, !.w = Ev.w] /\ UNCHANGED <<T, y>>
TResid == IsEvent("resid") /\ y' = Ev.y /\ UNCHANGED <<c, T>>
TSplit == IsEvent("split") /\ Ev.node \in Leaves(T) /\ T' = Expand(T, Ev.node, Rule(Ev), <<0>>, <<0>>) /\ UNCHANGED <<c, y>>
TPrune == IsEvent("prune") /\ Ev.node \in LeafParents(T) /\ T' = Collapse(T, Ev.node, <<0>>) /\ UNCHANGED <<c, y>>
SidesOK(R, L) == /\ Ev.ln = Cardinality(L) /\ Ev.rn = Cardinality(R \ L)
                 /\ Near(Ev.split, F(Ev.tab, L) + F(Ev.tab, R \ L)) /\ Near(Ev.nosplit, F(Ev.tab, R))
TProposed == /\ IsEvent("proposed") /\ UNCHANGED <<c, T, y>>
             /\ LET R == RowsOf(Ev.node) IN SidesOK(R, Goes(R, Ev))
TExisting == /\ IsEvent("existing") /\ UNCHANGED <<c, T, y>> /\ Ev.node \in LeafParents(T)
             /\ SidesOK(RowsOf(Ev.node), RowsOf(2 * Ev.node))
\* all candidates of a leaf: cuts[f] are the bins of feature f; bins[k] = categories or threshold sending bins 1..k left
BinRule(f, b) == IF c.ft[f] = "unordered" THEN Cat(f - 1, Range(b.vec)) ELSE Num(f - 1, b.v)
TAll ==
  /\ IsEvent("all") /\ UNCHANGED <<c, T, y>>
  /\ LET R == RowsOf(Ev.node)
         L(f, k) == LeftRows(R, c.X, f, BinRule(f, Ev.cuts[f][k]))
         expected == UNION {{<<f, k>> : k \in {k \in 1..(Len(Ev.cuts[f]) - 1) : c.w[f] = 1 /\ Cardinality(L(f, k)) >= c.ml /\ Cardinality(R \ L(f, k)) >= c.ml}} : f \in DOMAIN c.ft}
         cand(q) == Ev.cands[q]
     IN /\ {<<cand(q).feat + 1, cand(q).bin + 1>> : q \in DOMAIN Ev.cands} = expected
        /\ Len(Ev.cands) = Cardinality(expected) /\ Ev.count = Cardinality(expected) /\ Ev.len = Cardinality(expected) + 1
        /\ Near(Ev.nosplit, F(Ev.tab, R))
        /\ \A q \in DOMAIN Ev.cands : LET LL == Goes(R, cand(q)) IN
             /\ cand(q).ft = c.ft[cand(q).feat + 1]
             /\ LL = L(cand(q).feat + 1, cand(q).bin + 1)
             /\ Near(cand(q).ll, F(Ev.tab, LL) + F(Ev.tab, R \ LL))
TraceInit == l = 1 /\ c = <<>> /\ T = <<>> /\ y = <<>>
TraceNext == TBegin \/ TConf \/ TResid \/ TSplit \/ TPrune \/ TProposed \/ TExisting \/ TAll
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
