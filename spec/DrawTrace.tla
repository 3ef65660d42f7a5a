----------------------------- MODULE DrawTrace ------------------------------
(* Trace specification of variances, leaf scales and random effects drawn by the core library: every draw is put in *)
(* relation to the law its prior and the current state give it, and over the trace the standardised draws have to    *)
(* average to 0 with mean square 1.                                                                                  *)
EXTENDS ConjObs, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* st: the session; par: the random-effects parameters now; acc: tallies by kind of draw
VARIABLES l, st, par, acc
vars == <<l, st, par, acc>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Kinds == {"sigma", "leaf", "group", "working", "spread", "cross", "pull"}
\* list of <<kind, standardised value>>
Count(us) == /\ \A i \in DOMAIN us : Plausible(us[i][2])
             /\ acc' = FoldLeft(LAMBDA a, u : [a EXCEPT ![u[1]] = Tally(a[u[1]], u[2])], acc, us)
TBegin == IsEvent("begin") /\ st' = Ev /\ par' = (IF "par" \in DOMAIN Ev THEN Ev.par ELSE <<>>) /\ UNCHANGED acc
TSigma == /\ IsEvent("sigma") /\ UNCHANGED <<st, par>>
          /\ Count(<<<<"sigma", StdIG(PostShape(Ev.nu, Len(Ev.r)), PostScale(FMul(Ev.nu, Ev.lam), FSumSq(Ev.r)), Ev.v)>>>>)
TLeaf == /\ IsEvent("leaf") /\ UNCHANGED <<st, par>>
         /\ Count(<<<<"leaf", StdIG(PostShape(Ev.a, Len(Ev.mu)), PostScale(Ev.b, FSumSq(Ev.mu)), Ev.v)>>>>)
\* normal vector x with precision P and numerator q: standardised components, and their correlation
NormalDraw(kind, P, q, x) ==
  LET n == Len(x)
      diff == [i \in 1..n |-> FSub(FSum([j \in 1..n |-> FMul(P[i][j], x[j])]), q[i])]
      sd == [i \in 1..n |-> FSqrt(P[i][i])]
      u == [i \in 1..n |-> FDiv(diff[i], sd[i])]
      rho == FDiv(P[1][2], FMul(sd[1], sd[2]))
  IN [i \in 1..n |-> <<kind, u[i]>>] \o [i \in 1..n |-> <<"pull", Along(q[i], u[i])>>] \o (IF n < 2 THEN <<>> ELSE <<<<"cross", FDiv(FSub(FMul(u[1], u[2]), rho), FSqrt(FAdd(FInt(1), FMul(rho, rho))))>>>>)
\* one iteration of the random effects: group parameters given working parameter and spreads of before, working
\* parameter given the new group parameters, spreads given the new group parameters
TEffects == /\ IsEvent("effects") /\ par' = [alpha |-> Ev.alpha, xi |-> Ev.xi, sig |-> Ev.sig] /\ UNCHANGED st
            /\ LET NC == Len(Ev.alpha) G == Len(Ev.xi)
                   rows(g) == SelectSeq([i \in DOMAIN st.grp |-> i], LAMBDA i : st.grp[i] = g)
                   XX == [g \in 1..G |-> LET R == rows(g) IN [i \in 1..NC |-> [j \in 1..NC |-> FoldLeft(LAMBDA a, r : a + st.B[r][i] * st.B[r][j], 0, R)]]]
                   Xy == [g \in 1..G |-> LET R == rows(g) IN [i \in 1..NC |-> FoldLeft(LAMBDA a, r : a + st.B[r][i] * st.y[r], 0, R)]]
                   is2 == FDiv(FInt(1), st.s2)
                   info(g, w, i, j) == FMul(is2, FMul(FMul(w[i], w[j]), FInt(XX[g][i][j])))
                   told(g, w, i) == FMul(is2, FMul(w[i], FInt(Xy[g][i])))
                   groups == FlattenSeq([g \in 1..G |->
                      NormalDraw("group", [i \in 1..NC |-> [j \in 1..NC |-> FAdd(IF i = j THEN FDiv(FInt(1), par.sig[i]) ELSE FZero, info(g, par.alpha, i, j))]],
                                 [i \in 1..NC |-> told(g, par.alpha, i)], Ev.xi[g])])
                   working == NormalDraw("working", [i \in 1..NC |-> [j \in 1..NC |-> FAdd(IF i = j THEN FDiv(FInt(1), st.wcov) ELSE FZero, FSum([g \in 1..G |-> info(g, Ev.xi[g], i, j)]))]],
                                         [i \in 1..NC |-> FSum([g \in 1..G |-> told(g, Ev.xi[g], i)])], Ev.alpha)
                   spread == [i \in 1..NC |-> <<"spread", StdIG(PostShape(st.shape, G), PostScale(st.scale, FSumSq([g \in 1..G |-> Ev.xi[g][i]])), Ev.sig[i])>>]
               IN Count(groups \o working \o spread)
TVerdict == /\ IsEvent("verdict") /\ UNCHANGED <<st, par, acc>>
            /\ \A k \in Kinds : acc[k][1] >= Enough => Fair(acc[k])
            /\ \E k \in Kinds : acc[k][1] >= Enough
TraceInit == l = 1 /\ st = <<>> /\ par = <<>> /\ acc = [k \in Kinds |-> NoDraws]
TraceNext == TBegin \/ TSigma \/ TLeaf \/ TEffects \/ TVerdict
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
