----------------------------- MODULE ModelTrace -----------------------------
(* Trace specification of fitting a BART or BCF model through a language interface, and of all it answers later.  *)
(* Sessions start with "fit"; which iterations are retained (where the specification leaves a choice) is chosen    *)
(* there, and everything answered later has to fit this one choice.                                               *)
EXTENDS ModelObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
NFor == Len(st.fit.s.sampL)
Tot == Total(st.fit.s)
\* [k]: retained iterations
TFit == /\ IsEvent("fit") /\ Ev.types = EncTypes(Ev.lang, Ev.cols)
        /\ \E k \in RetainedIf(Ev.s) :
             st' = [fit |-> Ev, k |-> k, it |-> 0, pos |-> 0, sig |-> 0, leaf |-> [f \in DOMAIN Ev.s.sampL |-> 0],
                    lsig |-> <<>>, lleaf |-> [f \in DOMAIN Ev.s.sampL |-> <<>>], trees |-> <<>>, beta |-> <<>>, bd |-> <<>>, b0 |-> <<>>]
\* columns of the encoded table (and the propensity column after them) forest f may split on
Source == EncSource(st.fit.lang, st.fit.cols)
Allowed(f) == {j \in 0..(Len(Source) - 1) : Source[j + 1] \in Range(st.fit.vars[f])} \cup (IF st.fit.prop[f] THEN {Len(Source)} ELSE {})
TStep == /\ IsEvent("step") /\ LET first == Ev.f = 1 IN
            /\ Ev.f = (IF st.pos = NFor THEN 1 ELSE st.pos + 1) \/ (first /\ st.it = 0)
            /\ LET i == IF first THEN st.it + 1 ELSE st.it IN
               /\ i <= Tot /\ Ev.gfr = (i <= st.fit.s.ngfr) /\ Ev.ns = i
               /\ (st.sig # 0 => Ev.sig = st.sig) /\ (st.leaf[Ev.f] # 0 => Ev.leaf = st.leaf[Ev.f])
               /\ (st.it > 0 /\ first /\ st.fit.s.sampS => Len(st.lsig) = st.it) 
               /\ \A j \in 0..(Len(Ev.w) - 1) : (Ev.w[j + 1] = (j \in Allowed(Ev.f)))
               /\ st' = [st EXCEPT !.it = i, !.pos = Ev.f, !.sig = Ev.sig, !.leaf[Ev.f] = Ev.leaf]
Put(q, i, v) == IF Len(q) = i THEN [q EXCEPT ![i] = v] ELSE Append(q, v)
TSigma == /\ IsEvent("sigma") /\ st.fit.s.sampS /\ st.it > 0 /\ Len(st.lsig) \in {st.it, st.it - 1}
          /\ st' = [st EXCEPT !.sig = Ev.v, !.lsig = Put(@, st.it, Ev["ln"])]
TLeaf == /\ IsEvent("leaf") /\ st.fit.s.sampL[Ev.f] /\ Ev.f <= st.pos /\ Ev.num = st.it - 1 /\ Len(st.lleaf[Ev.f]) \in {st.it, st.it - 1}
         /\ st' = [st EXCEPT !.leaf[Ev.f] = Ev.v, !.lleaf[Ev.f] = Put(@, st.it, Ev["ln"])]
\* recorded draws (logarithms), of all iterations or of the retained ones, shifted by the outcome scale
Recorded(rec, all, shift) == \/ Len(rec) = Len(all) /\ \A i \in DOMAIN all : Mg(rec[i] - (all[i] + shift)) <= 4
                             \/ Len(rec) = Len(st.k) /\ \A i \in DOMAIN st.k : Mg(rec[i] - (all[st.k[i]] + shift)) <= 4
TFinish == /\ IsEvent("finish") /\ UNCHANGED st /\ st.it = Tot /\ st.pos = NFor
           /\ IF st.fit.s.sampS THEN Len(st.lsig) = Tot /\ Ev.hassig /\ Recorded(Ev.sig, st.lsig, st.fit.ls2) ELSE ~Ev.hassig
           /\ \A f \in 1..NFor : IF st.fit.s.sampL[f] THEN Len(st.lleaf[f]) = Tot /\ Ev.hasleaf[f] /\ Recorded(Ev.leaf[f], st.lleaf[f], 0) ELSE ~Ev.hasleaf[f]
\* the stored forests: one sample per iteration, splitting on allowed columns only
TForests == /\ IsEvent("forests") /\ Len(Ev.trees) = NFor
            /\ \A f \in 1..NFor : Len(Ev.trees[f]) = Tot /\ \A i \in 1..Tot : Len(Ev.trees[f][i]) = st.fit.ntrees[f] /\ SplitFeats(Ev.trees[f][i]) \subseteq Allowed(f)
            /\ (Len(Ev.bd) > 0 => Len(Ev.bd) \in {Tot, Len(st.k)}) /\ (Len(Ev.bd) > 0) = st.fit.coding /\ Len(Ev.b0) = Len(Ev.bd)
            /\ (st.fit.rfx => Len(Ev.beta) = Tot) /\ (Len(Ev.beta) > 0) = st.fit.rfx
            /\ st' = [st EXCEPT !.trees = Ev.trees, !.beta = Ev.beta, !.bd = Ev.bd, !.b0 = Ev.b0]
\* --- predictions
NB(f) == IF f = 1 THEN st.fit.dim[1] ELSE st.fit.dim[2]
Xrow(r) == EncRow(st.fit.lang, st.fit.cols, Ev.rows[r]) \o (IF Ev.hasprop THEN <<Ev.prop[r]>> ELSE <<>>)
Vec(f, i, r) == VecSum(st.trees[f][i], Xrow(r), NB(f))
\* coding factor of iteration i, position c of the output
Bd(i, c) == IF st.bd = <<>> THEN B ELSE IF Len(st.bd) = Tot THEN st.bd[i] ELSE st.bd[c]
GroupOf(lab) == Cardinality({k \in Range(st.fit.labs) : k < lab}) + 1
Rfx(i, r) == IF st.fit.rfx THEN Dot(Ev.rb[r], st.beta[i][GroupOf(Ev.lab[r])]) ELSE 0
RfxTol(r) == IF st.fit.rfx THEN Len(Ev.rb[r]) * MaxMag(Ev.rb[r]) ELSE 0
Base == st.fit.m * A
S == st.fit.sc
Main(i, r) == IF st.fit.kind = "bart" /\ st.fit.basis THEN Dot(Vec(1, i, r), Ev.z[r]) ELSE Vec(1, i, r)[1]
MainTol(r) == st.fit.ntrees[1] * (IF st.fit.kind = "bart" /\ st.fit.basis THEN Len(Ev.z[r]) * MaxMag(Ev.z[r]) ELSE 1)
Tau(i, c, r) == LET v == Vec(2, i, r) IN [q \in DOMAIN v |-> IF st.bd = <<>> THEN v[q] ELSE (v[q] * Bd(i, c)) \div B]
TauTol(i, c, r) == LET v == Vec(2, i, r) IN (st.fit.ntrees[2] * Mg(Bd(i, c))) \div B + 2 + (IF st.bd = <<>> THEN 0 ELSE MaxMag(v) \div B)
\* what the treatment forest adds to the untreated: the coding of the untreated times its leaf value
B0(i, c) == IF Len(st.b0) = Tot THEN st.b0[i] ELSE st.b0[c]
Still(i, c, r) == IF st.bd = <<>> THEN 0 ELSE (Vec(2, i, r)[1] * B0(i, c)) \div B
StillTol(i, c, r) == IF st.bd = <<>> THEN 0 ELSE (st.fit.ntrees[2] * Mg(B0(i, c))) \div B + 2 + Mg(Vec(2, i, r)[1]) \div B
Near(got, want, tol) == Mg(got - want) <= tol
Out(o, c, i, r) ==
  LET g == o.v[r][c] IN
  CASE o.what = "f" -> Near(g, Base + S * (Main(i, r) + Still(i, c, r)), S * (MainTol(r) + StillTol(i, c, r)) + 3)
    [] o.what = "rfx" -> Near(g, S * Rfx(i, r), S * RfxTol(r) + 3)
    [] o.what = "tau" -> LET t == Tau(i, c, r) IN Len(g) = Len(t) /\ \A q \in DOMAIN t : Near(g[q], S * t[q], S * TauTol(i, c, r) + 3)
    [] o.what = "y" -> IF st.fit.kind = "bart" THEN Near(g, Base + S * (Main(i, r) + Rfx(i, r)), S * (MainTol(r) + RfxTol(r)) + 5)
                       ELSE LET t == Tau(i, c, r) z == Ev.z[r] IN
                            Near(g, Base + S * (Main(i, r) + Still(i, c, r) + Dot(t, z) + Rfx(i, r)), S * (MainTol(r) + StillTol(i, c, r) + RfxTol(r) + Len(z) * MaxMag(z) * TauTol(i, c, r)) + 5)
Cols == IF Ev.all THEN Iota(1, Tot) ELSE st.k
TPred == /\ IsEvent("pred") /\ UNCHANGED st
         /\ \A w \in DOMAIN Ev.outs : LET o == Ev.outs[w] IN
              /\ Len(o.v) = Len(Ev.rows)
              /\ \A r \in DOMAIN o.v : Len(o.v[r]) = Len(Cols) /\ \A c \in DOMAIN Cols : Out(o, c, Cols[c], r)
TraceInit == l = 1 /\ st = [none |-> TRUE]
TraceNext == TFit \/ TStep \/ TSigma \/ TLeaf \/ TFinish \/ TForests \/ TPred
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
