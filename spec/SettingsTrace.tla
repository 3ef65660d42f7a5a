---------------------------- MODULE SettingsTrace ----------------------------
(* Trace specification of what the parts of a model are handed while it is fitted (SettingsObs): begin, then step,    *)
(* sigma, leaf and rfx in the order in which the library was called, then end.                                        *)
EXTENDS SettingsObs, PreprocObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* st: the session; sig: the global variance now (<<>> before it has been seen); cand: the residual variances the
\* calibration can have come from; sc: leaf scale by forest (<<>> before it has been seen); n: what has been counted
VARIABLES l, st, sig, cand, sc, n, lam
vars == <<l, st, sig, cand, sc, n, lam>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
GivenSlot(s) == s \in DOMAIN st.given
Val(s) == IF GivenSlot(s) THEN st.given[s] ELSE Frac(Fixed(st.lang, st.kind, s))
Share(s, trees) == IF GivenSlot(s) THEN st.given[s] ELSE FDiv(Frac(ShareOf(st.lang, st.kind, s)), Val(trees))
IsVal(s, x) == Near(x, Val(s))
IsInt(s, i) == Near(FInt(i), Val(s))
NearRows(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Len(x[i]) = Len(y[i]) /\ \A j \in DOMAIN x[i] : Near(x[i][j], y[i][j])
Num(f) == IF f = 1 THEN "1" ELSE "2"
\* --- the parts
FirstScale(f) == IF (f = 2 \/ st.kind = "bart") /\ st.mat # <<>> THEN st.mat ELSE Diagonal(Share(Own("scale", Num(f)), Own("trees", Num(f))), st.dims[f])
ScaleOK(f, x) == NearRows(x, IF sc[f] = <<>> THEN FirstScale(f) ELSE sc[f])
\* the variance a part is handed, and the candidates it leaves
VarianceOK(x) == IF sig # <<>> THEN Near(x, sig) /\ UNCHANGED <<sig, cand>>
                 ELSE /\ sig' = x
                      /\ IF GivenSlot("sigma2") THEN Near(x, st.given["sigma2"]) /\ UNCHANGED cand
                         ELSE IF n.sigma > 0 /\ Ev.lambda = lam THEN UNCHANGED cand ELSE cand' = {c \in cand : Near(x, st.cands[c])} /\ cand' # {}
Orig(cols) == Lay(st.lang, cols, LAMBDA i : [k \in 1..ColWidth(st.lang, cols[i]) |-> i])
Keep(f) == {st.keep[f][i] : i \in DOMAIN st.keep[f]}
OneCov == FDiv(FInt(1), FInt(st.ncov))
Weight(i) == IF st.wt = <<>> THEN OneCov ELSE st.wt[i]
Wanted(f) == LET o == Orig(st.cols) IN
  IF st.lang = "py" /\ st.kind = "bart" THEN [j \in DOMAIN o |-> FInt(1)]
  ELSE [j \in DOMAIN o |-> RelWeight(o, [i \in DOMAIN st.cols |-> Weight(i)], Keep(f), j)] \o [j \in 1..st.nprop |-> IF st.prop[f] THEN OneCov ELSE FZero]
Types == EncTypes(st.lang, st.cols) \o [j \in 1..st.nprop |-> 0]
\* what the second forest's leaves are multiplied with, or those of a regression on a basis
Coded(z) == IF z = FZero THEN Val("code0") ELSE Val("code1")
BasisWanted == IF st.coding THEN [i \in DOMAIN st.z |-> <<Coded(st.z[i][1])>>] ELSE st.z
Regression(f) == IF st.kind = "bcf" THEN f = 2 ELSE st.z # <<>>
TBegin == /\ IsEvent("begin") /\ st' = Ev /\ sig' = <<>> /\ cand' = DOMAIN Ev.cands /\ sc' = <<<<>>, <<>>>> /\ lam' = <<>>
          /\ n' = [gfr |-> <<0, 0>>, mcmc |-> <<0, 0>>, sigma |-> 0, leaf |-> <<0, 0>>, rfx |-> 0]
\* what an iteration is handed apart from the variances (an event repeats it only when it differs from the iteration before)
Handing(f, q) == /\ IsInt(Own("trees", q), Ev.trees) /\ IsInt(Own("trees", q), Ev.ctrees)
                 /\ Ev.dim = st.dims[f] /\ Ev.constant = ~Regression(f)
                 /\ Ev.model = (IF ~Regression(f) THEN 0 ELSE IF st.dims[f] = 1 THEN 1 ELSE 2)
                 /\ IsVal(Own("alpha", q), Ev.alpha) /\ IsVal(Own("beta", q), Ev.beta) /\ IsInt(Own("minleaf", q), Ev.minleaf)
                 /\ (Ev.gfr => IsInt("grid", Ev.grid))
                 /\ Proportional(Ev.w, Wanted(f)) /\ Ev.ttypes = Types /\ (Ev.gfr => Ev.types = Types)
                 /\ ((Regression(f) /\ Ev.basis # <<>>) => NearRows(Ev.basis, BasisWanted))
TStep == /\ IsEvent("step")
         /\ IF Ev.again THEN TRUE ELSE Handing(Ev.f, Num(Ev.f))
         /\ ScaleOK(Ev.f, Ev.scale) /\ VarianceOK(Ev.sig)
         /\ sc' = [sc EXCEPT ![Ev.f] = Ev.scale]
         /\ n' = IF Ev.gfr THEN [n EXCEPT !.gfr[Ev.f] = @ + 1] ELSE [n EXCEPT !.mcmc[Ev.f] = @ + 1]
         /\ UNCHANGED <<st, lam>>
TSigma == /\ IsEvent("sigma") /\ IsVal("nu", Ev.nu)
          /\ IF GivenSlot("lambda") THEN Near(Ev.lambda, st.given["lambda"]) /\ UNCHANGED cand
             ELSE IF n.sigma > 0 /\ Ev.lambda = lam THEN UNCHANGED cand ELSE cand' = {c \in cand : Near(Ev.lambda, CalibratedLambda(st.nui, st.qi, st.cands[c]))} /\ cand' # {}
          /\ lam' = Ev.lambda /\ sig' = Ev.v /\ n' = [n EXCEPT !.sigma = @ + 1] /\ UNCHANGED <<st, sc>>
TLeaf == /\ IsEvent("leaf") /\ Ev.f # 0
         /\ IsVal(Own("a", Num(Ev.f)), Ev.a) /\ Near(Ev.b, Share(Own("b", Num(Ev.f)), Own("trees", Num(Ev.f))))
         /\ sc' = [sc EXCEPT ![Ev.f] = <<<<Ev.v>>>>] /\ n' = [n EXCEPT !.leaf[Ev.f] = @ + 1] /\ UNCHANGED <<st, sig, cand, lam>>
TRfx == /\ IsEvent("rfx") /\ VarianceOK(Ev.sig)
        /\ (Ev.first => NearRows(Ev.gcov, [i \in DOMAIN st.rfxvar |-> [j \in DOMAIN st.rfxvar |-> IF i = j THEN st.rfxvar[i] ELSE FZero]]))
        /\ n' = [n EXCEPT !.rfx = @ + 1] /\ UNCHANGED <<st, sc, lam>>
Iterations == IF st.kind = "bcf" THEN {1, 2} ELSE {1}
LeafSampled(f) == Val(Own("sampleaf", Num(f))) = FInt(1) /\ st.dims[f] = 1
TEnd == /\ IsEvent("end") /\ UNCHANGED <<st, sig, cand, sc, n, lam>>
        /\ LET its == n.gfr[1] + n.mcmc[1] IN
           /\ \A f \in Iterations : /\ IsInt("ngfr", n.gfr[f]) /\ FInt(n.mcmc[f]) = FAdd(Val("nburn"), Val("nmcmc"))
                                    /\ n.leaf[f] = (IF LeafSampled(f) THEN its ELSE 0)
           /\ IF Val("sampsig") = FInt(1) THEN n.sigma >= its ELSE n.sigma = 0
           /\ n.rfx = (IF st.rfx THEN its ELSE 0)
TraceInit == l = 1 /\ st = <<>> /\ sig = <<>> /\ cand = {} /\ sc = <<>> /\ n = <<>> /\ lam = <<>>
TraceNext == TBegin \/ TStep \/ TSigma \/ TLeaf \/ TRfx \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
