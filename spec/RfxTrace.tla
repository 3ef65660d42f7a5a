------------------------------ MODULE RfxTrace ------------------------------
(* Trace specification of the random-effects model and its recorded samples.  Reals are fixed point in units of   *)
(* 1/A; identity of floating-point values is by interned ids (fields ending in "i").                              *)
EXTENDS RfxObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* c: configuration; y, other: outcome and the fit of the other term; pr: current random-effects fit; out: effects taken out of the fit;
\* ss: recorded samples (ids), sv: their beta values; asked: earlier predictions
VARIABLES l, c, other, pr, out, par, ss, sv, asked
vars == <<l, c, other, pr, out, par, ss, sv, asked>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
N == Len(c.lab)
NC == Len(c.B[1])
G == NG(c.lab)
Tol == IF c.A = 1 THEN 0 ELSE 4
Near(a, b) == Mag(a - b) <= Tol
ResidOK(rr, fit, oth) == \A i \in 1..N : Near(rr[i] + fit[i] + oth[i], c.y[i])
\* products of two fixed-point numbers
ProdOK(p, a, b) == Mag(p * c.A - a * b) <= (IF c.A = 1 THEN 0 ELSE Mag(a) + Mag(b) + c.A)
FitOK(t, b, alpha, xig) == Mag(t * c.A - SumTo(NC, LAMBDA i : b[i] * alpha[i] * xig[i])) <=
                           (IF c.A = 1 THEN 0 ELSE c.A + SumTo(NC, LAMBDA i : Mag(b[i]) * (Mag(alpha[i]) + Mag(xig[i]) + 1)))
RowFit(t, p) == \A i \in 1..N : FitOK(t[i], c.B[i], p.alpha, p.xi[Group(c.lab, c.lab[i]) + 1])
\* container contents: samples k of the event equal the recorded ones (bitwise) and sizes are consistent
Rec(p) == [alpha |-> p.alphai, xi |-> p.xii, sig |-> p.sigi]
HoldsAll(cont, list) == LET nsamp == Len(list) IN
  /\ cont.ns = nsamp /\ cont.nc = NC /\ cont.ng = G
  /\ cont.alphai = FlatComp(list, LAMBDA s : s.alpha, NC) /\ cont.sigi = FlatComp(list, LAMBDA s : s.sig, NC)
  /\ cont.xii = FlatGrp(list, LAMBDA s : s.xi, NC, G)
  /\ Len(cont.betai) = nsamp * NC * G
  /\ \A q \in 1..Len(cont.beta) : LET w == (q - 1) % (NC * G) s == 1 + ((q - 1) \div (NC * G)) IN ProdOK(cont.beta[q], cont.alpha[(s - 1) * NC + 1 + (w % NC)], cont.xi[q])
LabelsOK(lm) == /\ Range(lm.map) = {<<k, Group(c.lab, k)>> : k \in Labels(c.lab)} /\ Len(lm.map) = G
                /\ Range(lm.keys) = Labels(c.lab) /\ Len(lm.keys) = G
TBegin == /\ IsEvent("begin") /\ c' = Ev.c /\ other' = [i \in DOMAIN Ev.c.lab |-> 0] /\ pr' = [i \in DOMAIN Ev.c.lab |-> 0] /\ out' = FALSE
          /\ ss' = <<>> /\ sv' = <<>> /\ asked' = <<>> /\ par' = Ev.par
          /\ LET lm == Ev.lm IN Range(lm.map) = {<<k, Group(Ev.c.lab, k)>> : k \in Labels(Ev.c.lab)} /\ Len(lm.map) = NG(Ev.c.lab)
          /\ Ev.cont.ns = 0 /\ \A i \in DOMAIN Ev.tp : Ev.tp[i] = 0
TIter == /\ IsEvent("iter") /\ ~out /\ UNCHANGED <<c, other, out, asked>>
         /\ par' = Ev.par /\ pr' = Ev.tp
         /\ RowFit(Ev.tp, Ev.par) /\ Ev.tpi = Ev.mpi
         /\ ResidOK(Ev.r, Ev.tp, other)
         /\ ss' = (IF Ev.store THEN Append(ss, Rec(Ev.par)) ELSE ss) /\ HoldsAll(Ev.cont, ss') /\ SubSeq(Ev.cont.betai, 1, Len(sv)) = sv /\ sv' = Ev.cont.betai
         \* with negligible noise the effects solve the least-squares problem of exactly the group's rows
         /\ (Ev.noiseless => \A g \in 0..(G - 1) : LET R == SetToSeq(RowsOfGroup(c.lab, g)) IN \A i \in 1..NC :
               LET W(j) == FoldLeft(LAMBDA a, q : a + c.B[q][i] * c.B[q][j], 0, R)
                   lhs == SumTo(NC, LAMBDA j : W(j) * Ev.eff[g + 1][j])
                   rhs == FoldLeft(LAMBDA a, q : a + c.B[q][i] * c.y[q], 0, R)
               IN Mag(lhs - rhs) <= 8 + SumTo(NC, LAMBDA j : 2 * Mag(W(j))))
\* the other term of the model was resampled
TOther == IsEvent("other") /\ other' = Ev.fit /\ ResidOK(Ev.r, IF out THEN [i \in 1..N |-> 0] ELSE pr, Ev.fit) /\ UNCHANGED <<c, pr, out, par, ss, sv, asked>>
TShift == /\ IsEvent("shift") /\ UNCHANGED <<c, other, par, ss, sv, asked>>
          /\ IF Ev.dir = "add" THEN ~out /\ out' = TRUE /\ pr' = pr /\ ResidOK(Ev.r, [i \in 1..N |-> 0], other)
                               ELSE out /\ out' = FALSE /\ pr' = Ev.tp /\ RowFit(Ev.tp, par) /\ ResidOK(Ev.r, Ev.tp, other)
TSet == IsEvent("set") /\ par' = Ev.par /\ Ev.par.alphai = Ev.want.alphai /\ Ev.par.xii = Ev.want.xii /\ Ev.par.sigi = Ev.want.sigi /\ UNCHANGED <<c, other, pr, out, ss, sv, asked>>
TAdd == /\ IsEvent("add") /\ ss' = Append(ss, Rec(par)) /\ HoldsAll(Ev.cont, ss') /\ SubSeq(Ev.cont.betai, 1, Len(sv)) = sv /\ sv' = Ev.cont.betai
        /\ UNCHANGED <<c, other, pr, out, par, asked>>
TReload == IsEvent("reload") /\ Ev.resave /\ HoldsAll(Ev.cont, ss) /\ Ev.cont.betai = sv /\ LabelsOK(Ev.lm) /\ UNCHANGED <<c, other, pr, out, par, ss, sv, asked>>
\* predictions of rows B with labels, sample-major; beta holds the values of the recorded effects
PredictOK(e) == LET n == Len(e.lab) IN
  /\ Len(e.pred) = n * Len(ss)
  /\ \A s \in 1..Len(ss) : \A i \in 1..n :
       LET b(k) == e.beta[(s - 1) * G * NC + Group(c.lab, e.lab[i]) * NC + k] IN
       Mag(e.pred[(s - 1) * n + i] - SumTo(NC, LAMBDA k : e.B[i][k] * b(k))) <= (IF c.A = 1 THEN 0 ELSE 1 + SumTo(NC, LAMBDA k : Mag(e.B[i][k])))
TPredict == /\ IsEvent("predict") /\ Ev.betai = sv /\ PredictOK(Ev)
            /\ (Ev.q \in DOMAIN asked => LET old == asked[Ev.q] IN SubSeq(Ev.predi, 1, Len(old)) = old)
            /\ asked' = [x \in DOMAIN asked \cup {Ev.q} |-> IF x = Ev.q THEN Ev.predi ELSE asked[x]]
            /\ UNCHANGED <<c, other, pr, out, par, ss, sv>>
\* centres and spreads of the draws for one basis column, integer parameters (closed form), units of 1/S
TPost == /\ IsEvent("post") /\ UNCHANGED <<c, other, pr, out, par, ss, sv, asked>> /\ NC = 1 /\ c.A = 1
         /\ LET a == par.alpha[1] sn == Ev.sn sd == Ev.sd S == Ev.S
                W(g) == FoldLeft(LAMBDA u, q : u + c.B[q][1] * c.B[q][1], 0, SetToSeq(RowsOfGroup(c.lab, g)))
                V(g) == FoldLeft(LAMBDA u, q : u + c.B[q][1] * c.y[q], 0, SetToSeq(RowsOfGroup(c.lab, g)))
                den(g) == sn + Ev.gcov * a * a * W(g) * sd
                x(g) == par.xi[g + 1][1]
                Wt == SumTo(G, LAMBDA g : x(g - 1) * x(g - 1) * W(g - 1))
                Vt == SumTo(G, LAMBDA g : x(g - 1) * V(g - 1))
                dw == sn + Ev.wcov * Wt * sd
            IN /\ \A g \in 0..(G - 1) : /\ Mag(Ev.gm[g + 1] * den(g) - S * Ev.gcov * a * V(g) * sd) <= 2 * den(g)
                                        /\ Mag(Ev.gv[g + 1] * den(g) - S * Ev.gcov * sn) <= 2 * den(g)
               /\ Mag(Ev.wm * dw - S * Ev.wcov * Vt * sd) <= 2 * dw /\ Mag(Ev.wv * dw - S * Ev.wcov * sn) <= 2 * dw
\* the index of rows by group
TGroups == /\ IsEvent("groups") /\ UNCHANGED <<c, other, pr, out, par, ss, sv, asked>>
           /\ LET lab == Ev.lab g == Ev.g IN
              /\ g.nc = NG(lab) /\ Range(g.ids) = Labels(lab) /\ Len(g.ids) = NG(lab)
              /\ \A i \in DOMAIN lab : g.of[i] = lab[i]
              /\ \A q \in DOMAIN g.cats : LET k == g.cats[q] rows == {i - 1 : i \in {j \in DOMAIN lab : lab[j] = k.id}} IN
                   /\ k.num = Group(lab, k.id) /\ k.size = Cardinality(rows) /\ Len(k.rows) = k.size /\ Range(k.rows) = rows /\ Range(k.rows2) = rows
                   /\ k["end"] - k["begin"] = k.size /\ {g.idx[j] : j \in (k["begin"] + 1)..k["end"]} = rows
              /\ {g.cats[q].id : q \in DOMAIN g.cats} = Labels(lab)
              /\ ("set" \in DOMAIN Ev => /\ g.after = Ev.set[2] /\ \A i \in DOMAIN lab : g.copy[i] = IF i = Ev.set[1] + 1 THEN Ev.set[2] ELSE lab[i])
TraceInit == l = 1 /\ c = <<>> /\ other = <<>> /\ pr = <<>> /\ out = FALSE /\ par = <<>> /\ ss = <<>> /\ sv = <<>> /\ asked = <<>>
TraceNext == TBegin \/ TIter \/ TOther \/ TShift \/ TSet \/ TAdd \/ TReload \/ TPredict \/ TPost \/ TGroups
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
