-------------------------------- MODULE Model -------------------------------
(* Fitting: in every iteration each forest in turn takes one step with the newest variance and leaf scale, then   *)
(* these are drawn again where they are sampled; what was drawn last in an iteration is what is recorded for it.  *)
(* Draws are numbered; 0 stands for the starting value.                                                           *)
EXTENDS ModelObs, Json
CONSTANTS NF, MaxG, MaxB, MaxM, Emit
VARIABLES s, it, pos, pc, n, sig, leaf, smp, sigrec, leafrec, keep
mv == <<s, it, pos, pc, n, sig, leaf, smp, sigrec, leafrec, keep>>
Settings == [ngfr : 0..MaxG, nburn : 0..MaxB, nmcmc : 0..MaxM, kg : BOOLEAN, kb : BOOLEAN, sampS : BOOLEAN, sampL : [1..NF -> BOOLEAN]]
Init == /\ s \in {q \in Settings : q.ngfr + q.nburn + q.nmcmc > 0}
        /\ it = 1 /\ pos = 1 /\ pc = "step" /\ n = 0 /\ sig = 0 /\ leaf = [f \in 1..NF |-> 0]
        /\ smp = [f \in 1..NF |-> <<>>] /\ sigrec = <<>> /\ leafrec = [f \in 1..NF |-> <<>>] /\ keep = <<>>
Step == /\ pc = "step" /\ it <= Total(s)
        /\ smp' = [smp EXCEPT ![pos] = Append(@, [gfr |-> it <= s.ngfr, sig |-> sig, leaf |-> leaf[pos]])]
        /\ pc' = "sigma" /\ UNCHANGED <<s, it, pos, n, sig, leaf, sigrec, leafrec, keep>>
DrawSigma == /\ pc = "sigma" /\ pc' = "leaf" /\ UNCHANGED <<s, it, pos, leaf, smp, leafrec, keep>>
             /\ IF s.sampS THEN n' = n + 1 /\ sig' = n + 1 /\ sigrec' = SubSeq(sigrec, 1, it - 1) \o <<n + 1>> ELSE UNCHANGED <<n, sig, sigrec>>
DrawLeaf == /\ pc = "leaf" /\ UNCHANGED <<s, smp, sig, sigrec, keep>>
            /\ IF s.sampL[pos] THEN n' = n + 1 /\ leaf' = [leaf EXCEPT ![pos] = n + 1] /\ leafrec' = [leafrec EXCEPT ![pos] = Append(@, n + 1)]
                              ELSE UNCHANGED <<n, leaf, leafrec>>
            /\ pc' = "step" /\ (IF pos = NF THEN pos' = 1 /\ it' = it + 1 ELSE pos' = pos + 1 /\ it' = it)
Finish == /\ pc = "step" /\ it = Total(s) + 1 /\ pc' = "done" /\ keep' \in RetainedIf(s) /\ UNCHANGED <<s, it, pos, n, sig, leaf, smp, sigrec, leafrec>>
Next == Step \/ DrawSigma \/ DrawLeaf \/ Finish
Spec == Init /\ [][Next]_mv
Done == pc = "done"
Ranged(q) == {q[i] : i \in DOMAIN q}
\* exactly the MCMC draws asked for, in order, at the end; other draws only in full and only when asked for
InvKeep == Done => LET k == keep T == Total(s) IN
  /\ Cardinality(Ranged(k)) = Len(k) /\ Ranged(k) \subseteq 1..T /\ Len(k) > 0
  /\ (s.nmcmc > 0 => SubSeq(k, Len(k) - s.nmcmc + 1, Len(k)) = McmcIts(s))
  /\ (s.nmcmc > 0 /\ ~s.kg => Ranged(k) \cap Ranged(GfrIts(s)) = {}) /\ (s.nmcmc > 0 /\ ~s.kb => Ranged(k) \cap Ranged(BurnIts(s)) = {})
  /\ (s.nmcmc > 0 /\ s.kg => Ranged(GfrIts(s)) \subseteq Ranged(k))
  /\ (s.nmcmc > 0 /\ s.kb /\ ~(s.kg /\ s.ngfr > 0) => Ranged(BurnIts(s)) \subseteq Ranged(k))
  /\ (s.nmcmc = 0 => Ranged(k) \in {Ranged(GfrIts(s)), Ranged(BurnIts(s))})
  /\ \A c \in {GfrIts(s), BurnIts(s)} : Ranged(c) \cap Ranged(k) \in {{}, Ranged(c)}
InvSamples == Done => \A f \in 1..NF : Len(smp[f]) = Total(s) /\ \A i \in 1..Total(s) : smp[f][i].gfr = (i <= s.ngfr)
\* what a step used is what was recorded last before it
InvCurrent == Done => \A i \in 2..Total(s) :
  /\ (s.sampS => Len(sigrec) = Total(s) /\ smp[1][i].sig = sigrec[i - 1])
  /\ \A f \in 1..NF : /\ (s.sampL[f] => Len(leafrec[f]) = Total(s) /\ smp[f][i].leaf = leafrec[f][i - 1])
                      /\ (~s.sampL[f] => smp[f][i].leaf = 0 /\ leafrec[f] = <<>>) /\ (~s.sampS => smp[f][i].sig = 0)
                      /\ smp[f][i].sig >= smp[f][i - 1].sig /\ smp[f][i].leaf >= smp[f][i - 1].leaf
EmitTransition == Emit /\ pc' = "done" => PrintT(<<"BEH", ToJson(s)>>)
=============================================================================
