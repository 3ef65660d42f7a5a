---------------------------- MODULE SamplerTrace ----------------------------
(* Trace specification of sampling runs: one or several forests (slots) sharing one residual.  Each event is  *)
(* one complete sampler iteration (or one whole-forest adjustment of the residual) of the real library.        *)
(* The switches select which guarantees are enforced; every check enforces those of its own property.          *)
(* Outcomes, residuals, leaf parameters and cached fits are fixed point (S units per 1.0), bases are integers,  *)
(* so sums carry a rounding error of half a unit per term: Tol bounds it.                                       *)
EXTENDS SamplerObs, Json, IOUtils
CONSTANTS CheckResid, CheckAppend, CheckGfr, CheckMcmc
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, y, slot, F, out, H, used
vars == <<l, y, slot, F, out, H, used>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Abs2(a) == IF a < 0 THEN -a ELSE a
\* y: outcome; slot[s]: configuration; F[s]: latest sample (<<>> before the first); out: slots whose fit is currently added back
Zero == [t \in 1..64 |-> 0]
Fits(s, f) == LET c == slot[s] IN
  [i \in 1..Len(c.X) |-> [j \in DOMAIN f |-> TreeFit(f[j], c.X[i], IF c.const THEN <<>> ELSE c.B[i], c.const)]]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* the largest rounding error of one slot's total
SlotTol(s) == LET c == slot[s] IN c.nt * (1 + c.dim * c.maxb) + 1
FlatSum(s, f, i) == Sum(Fits(s, f)[i])
RECURSIVE Total(_, _, _)
Total(S, fits, i) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN Sum(fits[s][i]) + Total(S \ {s}, fits, i)
RECURSIVE TolOf(_)
TolOf(S) == IF S = {} THEN 2 ELSE LET s == CHOOSE x \in S : TRUE IN SlotTol(s) + TolOf(S \ {s})
\* residual r plus the fit of every active slot is the outcome; FF are the latest samples
ResidOK(FF, o, r) ==
  LET act == {s \in DOMAIN FF : FF[s] # <<>> /\ s \notin o}
      fits == [s \in act |-> Fits(s, FF[s])]
      tol == TolOf(act)
  IN Len(r) = Len(y) /\ \A i \in DOMAIN r : Abs2(r[i] + Total(act, fits, i) - y[i]) <= tol
PredOK(s, f, pred) ==
  LET fits == Fits(s, f) c == slot[s] IN
  /\ Len(pred) = c.nt
  /\ \A j \in 1..c.nt : Len(pred[j]) = Len(c.X) /\ \A i \in 1..Len(c.X) : Abs2(pred[j][i] - fits[i][j]) <= c.dim * c.maxb + 1

TBegin == IsEvent("begin") /\ y' = Ev.y /\ slot' = <<>> /\ F' = <<>> /\ out' = {} /\ H' = <<>> /\ used' = <<>>
TSlot == IsEvent("slot") /\ slot' = Append(slot, Ev.c) /\ F' = Append(F, <<>>) /\ H' = Append(H, <<>>)
   /\ used' = Append(used, [j \in 1..Ev.c.nt |-> Range(Ev.zero)]) /\ UNCHANGED <<y, out>>
\* weights, minimum leaf size etc. may be changed between iterations
TConf == IsEvent("conf") /\ slot' = [slot EXCEPT ![Ev.s].w = Ev.w, ![Ev.s].ml = Ev.ml] /\ UNCHANGED <<y, F, out, H, used>>
NewForest == AbsForest(Ev.cur)
Base(s) == IF F[s] = <<>> THEN [j \in 1..slot[s].nt |-> Stump(<<0>>)] ELSE F[s]
TIter == IsEvent("iter") /\ LET s == Ev.s c == slot[s] N == NewForest IN
   /\ Len(Ev.cur) = c.nt
   /\ \A j \in 1..c.nt : Ev.cur[j].walk /\ WellFormed(N[j])
   /\ F' = [F EXCEPT ![s] = N]
   /\ H' = [H EXCEPT ![s] = Ev.hist]
   /\ used' = [used EXCEPT ![s] = [j \in 1..c.nt |-> @[j] \cup Range(Ev.ids[j])]]
   /\ CheckResid => PredOK(s, N, Ev.pred) /\ ResidOK(F', out, Ev.r)
   /\ CheckAppend => /\ Ev.ns = Len(H[s]) + 1 /\ Len(Ev.hist) = Ev.ns
                     /\ \A k \in DOMAIN H[s] : Ev.hist[k] = H[s][k]
                     /\ Ev.kind = "mcmc" => \A j \in 1..c.nt : McmcStep(Base(s)[j], N[j], c.X, c.w, c.ml)
   /\ (CheckGfr /\ Ev.kind = "gfr") => \A j \in 1..c.nt : GfrTree(N[j], c.X, c.ft, c.w, c.ml)
   /\ (CheckMcmc /\ Ev.kind = "mcmc") => \A j \in 1..c.nt :
         /\ McmcStep(Base(s)[j], N[j], c.X, c.w, c.ml)
         /\ Len(Ev.ids[j]) = Cardinality(Leaves(N[j])) /\ Cardinality(Range(Ev.ids[j])) = Len(Ev.ids[j])
         /\ Range(Ev.ids[j]) \cap used[s][j] = {}
   /\ UNCHANGED <<y, slot, out>>
\* the samples of all slots are looked at again (without sampling)
TLook == IsEvent("look") /\ (CheckAppend => Ev.hist = H[Ev.s] /\ Ev.ns = Len(H[Ev.s])) /\ UNCHANGED <<y, slot, F, out, H, used>>
\* predictions of the recorded samples (interned): those of earlier samples never change
TPred == IsEvent("preds") /\ UNCHANGED <<y, slot, F, out, H, used>>
   /\ (CheckAppend => (Len(Ev.now) = Len(Ev.before) + Ev.new /\ \A k \in DOMAIN Ev.before : Ev.now[k] = Ev.before[k]))
\* root values set before sampling: the latest sample is a forest of stumps with that value, already subtracted
TInit == IsEvent("init") /\ LET s == Ev.s c == slot[s] N == NewForest IN
   /\ F[s] = <<>>
   /\ \A j \in 1..c.nt : Ev.cur[j].walk /\ N[j] = Stump(Ev.v)
   /\ F' = [F EXCEPT ![s] = N]
   /\ CheckResid => PredOK(s, N, Ev.pred) /\ ResidOK(F', out, Ev.r)
   /\ UNCHANGED <<y, slot, out, H, used>>
\* the whole latest forest of a slot is added back to / taken out of the residual
TAdjust == IsEvent("adjust") /\ LET s == Ev.s IN
   /\ out' = IF Ev.add THEN out \cup {s} ELSE out \ {s}
   /\ CheckResid => PredOK(s, F[s], Ev.pred) /\ ResidOK(F, out', Ev.r)
   /\ UNCHANGED <<y, slot, F, H, used>>
TraceInit == l = 1 /\ y = <<>> /\ slot = <<>> /\ F = <<>> /\ out = {} /\ H = <<>> /\ used = <<>>
TraceNext == TBegin \/ TSlot \/ TConf \/ TIter \/ TLook \/ TPred \/ TInit \/ TAdjust
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
