----------------------------- MODULE ResidTrace -----------------------------
(* Trace specification of the working residual while a model is fitted: "fit" gives the data and all forests,      *)
(* random effects and codings that were recorded, every "step" of a forest starts from the residual the events      *)
(* before it leave: the standardised outcome less the last fit of every part.  Draws of variances, leaf scales and  *)
(* codings made on the way are put in relation to the laws ConjObs gives them, judged at a "verdict", and all of them    *)
(* together at a "total".                                                                                           *)
EXTENDS ModelObs, ConjObs, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* now: the noise variance in force; acc: tallies of standardised draws since the last verdict; tot: of those before
VARIABLES l, st, at, now, acc, tot
vars == <<l, st, at, now, acc, tot>>
Kinds == {"sigma", "leaf1", "leaf2", "coding0", "coding1", "pull0", "pull1"}
F == INSTANCE FitLoop WITH Vals <- {}, Codes <- {}, Outcome <- 0, mu <- 0, tau <- 0, code <- 0, rfx <- 0, held <- 0, resid <- 0
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
TFit == IsEvent("fit") /\ st' = Ev @@ [x |-> [r \in DOMAIN Ev.rows |-> EncRow(Ev.lang, Ev.cols, Ev.rows[r]) \o (IF Ev.prop = <<>> THEN <<>> ELSE <<Ev.prop[r]>>)]] /\ at' = [f \in DOMAIN Ev.trees |-> 0] /\ UNCHANGED <<now, acc>>
\* the fit of sample i of forest f at row r of the data
Vec(f, i, r) == VecSum(st.trees[f][i], st.x[r], st.dim[f])
Plain(f, i, r) == IF st.basis[f] THEN Dot(Vec(f, i, r), st.z[r]) ELSE Vec(f, i, r)[1]
\* the coding in force after iteration i: (1 - z) b0 + z b1, of scale B
Code(i, r) == LET b == st.coding[i] IN IF st.z[r][1] = 0 THEN b[1] ELSE b[2]
Part(f, i, r) == IF i = 0 THEN 0 ELSE IF f = 2 /\ st.coding # <<>> THEN (Vec(f, i, r)[1] * Code(i, r)) \div B ELSE Plain(f, i, r)
PartTol(f, i, r) == IF i = 0 THEN 0 ELSE IF f = 2 /\ st.coding # <<>> THEN (st.ntrees[f] * Mg(Code(i, r))) \div B + 2 + Mg(Vec(f, i, r)[1]) \div B
                    ELSE st.ntrees[f] * (IF st.basis[f] THEN Len(st.z[r]) * MaxMag(st.z[r]) ELSE 1)
Group(lab) == Cardinality({k \in Range(st.labs) : k < lab}) + 1
Eff(i, r) == IF i = 0 \/ st.beta = <<>> THEN 0 ELSE Dot(st.rb[r], st.beta[i][Group(st.lab[r])])
EffTol(r) == IF st.beta = <<>> THEN 0 ELSE Len(st.rb[r]) * MaxMag(st.rb[r])
Explains(res, q, x) == \A r \in DOMAIN res :
  LET parts == [f \in DOMAIN st.trees |-> Part(f, q[f], r)] \o <<Eff(x, r)>>
      tol == Sum2(Len(st.trees), LAMBDA f : PartTol(f, q[f], r)) + EffTol(r) + 4
  IN Mg(res[r] - F!Left(st.y[r] * A, parts)) <= tol
\* iterations follow each other, each forest takes one step in each; random effects follow the forests
TStep == /\ IsEvent("step") /\ Ev.it = at[Ev.f] + 1 /\ \A g \in DOMAIN at : at[g] \in {Ev.it - 1, Ev.it}
         /\ Explains(Ev.res, at, Ev.it - 1) /\ at' = [at EXCEPT ![Ev.f] = Ev.it] /\ now' = Ev.sig /\ UNCHANGED <<st, acc>>
Count(kind, us) == /\ \A i \in DOMAIN us : Plausible(us[i])
                   /\ acc' = [acc EXCEPT ![kind] = FoldLeft(LAMBDA t, u : Tally(t, u), @, us)]
AFix(i) == FFix(i, 14)
TSigma == /\ IsEvent("sigma") /\ now' = Ev.v /\ UNCHANGED <<st, at>>
          /\ Count("sigma", <<StdIG(PostShape(Ev.nu, Len(Ev.res)), PostScale(FMul(Ev.nu, Ev.lam), FSumSq([r \in DOMAIN Ev.res |-> AFix(Ev.res[r])])), Ev.v)>>)
\* the values of all leaves of iteration i of forest f
Leaves(f, i) == FlattenSeq([k \in DOMAIN st.trees[f][i] |-> LET tr == st.trees[f][i][k] q == SelectSeq([n \in DOMAIN tr |-> n], LAMBDA n : tr[n].l = 0) IN [j \in DOMAIN q |-> AFix(tr[q[j]].v[1])]])
TLeaf == /\ IsEvent("leaf") /\ UNCHANGED <<st, at, now>> /\ Ev.it = at[Ev.f]
         /\ LET mu == Leaves(Ev.f, Ev.it) IN Count(IF Ev.f = 1 THEN "leaf1" ELSE "leaf2", <<StdIG(PostShape(Ev.a, Len(mu)), PostScale(Ev.b, FSumSq(mu)), Ev.v)>>)
\* the codings have prior variance 1/2 (in units of the outcome squared); what the other parts leave is regressed on
\* the treatment forest's fit times the indicator of the treatment
TCoding == /\ IsEvent("coding") /\ UNCHANGED <<st, at, now>>
           /\ LET it == at[2]
                  t == [r \in DOMAIN st.y |-> AFix(Vec(2, it, r)[1])]
                  rest == [r \in DOMAIN st.y |-> AFix(st.y[r] * A - Part(1, it, r) - Eff(it - 1, r))]
                  rows(z) == SelectSeq([r \in DOMAIN st.y |-> r], LAMBDA r : st.z[r][1] = z)
                  d(z) == FAdd(FAdd(now, now), LET R == rows(z) IN FSum([q \in DOMAIN R |-> FMul(t[R[q]], t[R[q]])]))
                  s(z) == LET R == rows(z) IN FSum([q \in DOMAIN R |-> FMul(t[R[q]], rest[R[q]])])
                  u(z) == FDiv(FSub(FMul(Ev.b[z + 1], d(z)), s(z)), FSqrt(FMul(now, d(z))))
              IN /\ it >= 1 /\ Plausible(u(0)) /\ Plausible(u(1))
                 /\ acc' = [acc EXCEPT !["coding0"] = Tally(@, u(0)), !["coding1"] = Tally(@, u(1)),
                                              !["pull0"] = Tally(@, Along(s(0), u(0))), !["pull1"] = Tally(@, Along(s(1), u(1)))]
Sound(t) == \A k \in Kinds : t[k][1] >= Enough => Fair(t[k])
TVerdict == /\ IsEvent("verdict") /\ UNCHANGED <<st, at, now>> /\ Sound(acc)
            /\ \A i \in DOMAIN Ev.want : acc[Ev.want[i]][1] >= Enough
            /\ tot' = [k \in Kinds |-> [i \in 1..3 |-> tot[k][i] + acc[k][i]]] /\ acc' = [k \in Kinds |-> NoDraws]
TTotal == IsEvent("total") /\ Sound(tot) /\ UNCHANGED <<st, at, now, acc, tot>>
\* at the end, what the model reports as its last fit is the outcome less the residual
TEnd == IsEvent("end") /\ (Ev.fit # <<>> => \A r \in DOMAIN Ev.res : Mg(Ev.fit[r] + Ev.res[r] - st.y[r] * A) <= 8) /\ Explains(Ev.res, at, at[1]) /\ (\A g \in DOMAIN at : at[g] = at[1]) /\ UNCHANGED <<st, at, now, acc>>
TraceInit == l = 1 /\ st = [none |-> TRUE] /\ at = <<>> /\ now = FZero /\ acc = [k \in Kinds |-> NoDraws] /\ tot = acc
TraceNext == \/ (TFit \/ TStep \/ TEnd \/ TSigma \/ TLeaf \/ TCoding) /\ UNCHANGED tot
             \/ TVerdict \/ TTotal
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
