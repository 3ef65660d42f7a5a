------------------------------- MODULE Sampler ------------------------------
(* The sampling loop as a state machine.  Several forests share one residual.  An iteration of forest s:     *)
(* append a sample (a copy of the last one, or fresh stumps with a common root value), then for every tree:   *)
(* add its cached fit back to the residual, change the tree (MCMC: nothing, one grow or one prune;            *)
(* grow-from-root: any admissible tree), draw new leaf parameters, subtract the new fit and cache it.         *)
EXTENDS SamplerObs
CONSTANTS Slots, NT, Vals, Rules, X, Y, W, ML, FT, MaxIter, MaxH
VARIABLES r, samples, cache, pc, iters
sv == <<r, samples, cache, pc, iters>>
N == Len(X)
Trees == 1..NT
Zeros == [i \in 1..N |-> 0]
FitOf(T) == [i \in 1..N |-> LeafOf(T, X[i])[1]]
RECURSIVE SumOver(_, _, _)
SumOver(f, S, i) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x][i] + SumOver(f, S \ {x}, i)
Idle == [s |-> 0, j |-> 0, phase |-> "idle", kind |-> "-"]
Init == /\ r = Y /\ samples = [s \in Slots |-> <<>>] /\ cache = [s \in Slots |-> [j \in Trees |-> Zeros]] /\ pc = Idle /\ iters = 0
\* all trees of the new sample equal those of the last one, or are stumps
Begin == /\ pc = Idle /\ iters < MaxIter
  /\ \E s \in Slots, kind \in {"mcmc", "gfr"}, v \in Vals :
       /\ samples[s] # <<>> => v = CHOOSE q \in Vals : TRUE
       /\ samples' = [samples EXCEPT ![s] = Append(@, IF @ = <<>> THEN [j \in Trees |-> Stump(<<v>>)] ELSE @[Len(@)])]
       /\ pc' = [s |-> s, j |-> 1, phase |-> "add", kind |-> kind]
  /\ iters' = iters + 1 /\ UNCHANGED <<r, cache>>
AddBack == /\ pc.phase = "add"
  /\ r' = [i \in 1..N |-> r[i] + cache[pc.s][pc.j][i]]
  /\ pc' = [pc EXCEPT !.phase = "tree"] /\ UNCHANGED <<samples, cache, iters>>
Cur == samples[pc.s][Len(samples[pc.s])][pc.j]
SetCur(T) == samples' = [samples EXCEPT ![pc.s][Len(samples[pc.s])][pc.j] = T]
Keep == /\ pc.phase = "tree" /\ pc.kind = "mcmc" /\ SetCur(Cur) /\ pc' = [pc EXCEPT !.phase = "leaf"] /\ UNCHANGED <<r, cache, iters>>
Grow == /\ pc.phase = "tree" /\ pc.kind = "mcmc"
  /\ \E h \in {x \in Leaves(Cur) : 2*x+1 <= MaxH}, rule \in Rules :
       LET T == Expand(Cur, h, rule, <<0>>, <<0>>) IN
       W[rule.f + 1] # 0 /\ Enough(T, X, 2*h, ML) /\ Enough(T, X, 2*h+1, ML) /\ SetCur(T)
  /\ pc' = [pc EXCEPT !.phase = "leaf"] /\ UNCHANGED <<r, cache, iters>>
Prune == /\ pc.phase = "tree" /\ pc.kind = "mcmc" /\ \E h \in LeafParents(Cur) : SetCur(Collapse(Cur, h, <<0>>))
  /\ pc' = [pc EXCEPT !.phase = "leaf"] /\ UNCHANGED <<r, cache, iters>>
\* grow from root: reset, then any number of admissible splits
GfrReset == /\ pc.phase = "tree" /\ pc.kind = "gfr" /\ SetCur(Stump(<<0>>)) /\ pc' = [pc EXCEPT !.phase = "grow"] /\ UNCHANGED <<r, cache, iters>>
GfrSplit == /\ pc.phase = "grow"
  /\ \E h \in {x \in Leaves(Cur) : 2*x+1 <= MaxH}, rule \in Rules :
       LET T == Expand(Cur, h, rule, <<0>>, <<0>>) IN
       /\ W[rule.f + 1] # 0 /\ KindOK(rule, FT, X, RowsUnder(Cur, X, h))
       /\ Enough(T, X, 2*h, ML) /\ Enough(T, X, 2*h+1, ML) /\ SetCur(T)
  /\ UNCHANGED <<r, cache, iters, pc>>
GfrDone == /\ pc.phase = "grow" /\ pc' = [pc EXCEPT !.phase = "leaf"] /\ UNCHANGED <<r, samples, cache, iters>>
Leaf1 == /\ pc.phase = "leaf"
  /\ \E g \in [Leaves(Cur) -> Vals] : SetCur([h \in DOMAIN Cur |-> IF Cur[h].k = "leaf" THEN Leaf(<<g[h]>>) ELSE Cur[h]])
  /\ pc' = [pc EXCEPT !.phase = "sub"] /\ UNCHANGED <<r, cache, iters>>
Subtract == /\ pc.phase = "sub"
  /\ LET f == FitOf(Cur) IN r' = [i \in 1..N |-> r[i] - f[i]] /\ cache' = [cache EXCEPT ![pc.s][pc.j] = f]
  /\ pc' = (IF pc.j = NT THEN Idle ELSE [pc EXCEPT !.j = @ + 1, !.phase = "add"])
  /\ UNCHANGED <<samples, iters>>
Next == Begin \/ AddBack \/ Keep \/ Grow \/ Prune \/ GfrReset \/ GfrSplit \/ GfrDone \/ Leaf1 \/ Subtract
Spec == Init /\ [][Next]_sv

Lifted == IF pc.phase \in {"tree", "grow", "leaf", "sub"} THEN {<<pc.s, pc.j>>} ELSE {}
Flat == [x \in Slots \X Trees |-> cache[x[1]][x[2]]]
\* at every point: residual plus the cached fits still subtracted from it is the outcome
InvPartial == \A i \in 1..N : r[i] + SumOver(Flat, (Slots \X Trees) \ Lifted, i) = Y[i]
\* between iterations: residual plus the fit of the most recent sample of every active forest is the outcome
Active == {s \in Slots : samples[s] # <<>>}
Last(s) == samples[s][Len(samples[s])]
FlatFit == [x \in Active \X Trees |-> FitOf(Last(x[1])[x[2]])]
InvResid == pc = Idle => \A i \in 1..N : r[i] + SumOver(FlatFit, Active \X Trees, i) = Y[i]
InvCache == pc = Idle => \A s \in Active : \A j \in Trees : cache[s][j] = FitOf(Last(s)[j])
InvTrees == \A s \in Slots : \A k \in DOMAIN samples[s] : \A j \in Trees : WellFormed(samples[s][k][j])
InvGfr == pc.phase \in {"leaf", "sub"} /\ pc.kind = "gfr" => GfrTree(Cur, X, FT, W, ML)
\* relative to the sample it was copied from, a finished MCMC tree is one step away
InvMcmc == pc.phase = "sub" /\ pc.kind = "mcmc" => LET q == samples[pc.s] k == Len(q) IN
             McmcStep(IF k = 1 THEN Stump(<<0>>) ELSE q[k-1][pc.j], Cur, X, W, ML)
\* recorded samples never change: only the newest sample of the forest being sampled does
AppendOnly == [][\A s \in Slots : /\ Len(samples'[s]) \in {Len(samples[s]), Len(samples[s]) + 1}
                  /\ \A k \in DOMAIN samples[s] : (k < Len(samples[s]) \/ pc.s # s) => samples'[s][k] = samples[s][k]]_sv
=============================================================================
