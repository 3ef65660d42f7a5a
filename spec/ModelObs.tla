------------------------------ MODULE ModelObs ------------------------------
(* What a fitted model holds and answers: which of the iterations run are retained, and what a forest predicts.    *)
(* A tree is a sequence of nodes [f, t, l, r, v]: feature f (from 0), threshold t, children l and r (0 in leaves), *)
(* leaf vector v; leaf values, outcomes and random effects are fixed-point numbers of scale A.                     *)
EXTENDS PreprocObs
A == 16384
B == 1024
Sum2(n, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])
Mg(x) == IF x < 0 THEN 0 - x ELSE x
Iota(lo, hi) == [i \in 1..(hi - lo + 1) |-> lo + i - 1]
\* iterations of each kind, numbered from 1
GfrIts(s) == Iota(1, s.ngfr)
BurnIts(s) == Iota(s.ngfr + 1, s.ngfr + s.nburn)
McmcIts(s) == Iota(s.ngfr + s.nburn + 1, s.ngfr + s.nburn + s.nmcmc)
Total(s) == s.ngfr + s.nburn + s.nmcmc
\* the lists of iterations that may be retained: the requested MCMC draws last, preceded by what is to be kept;
\* when both kinds of earlier draws are to be kept, implementations differ in what they put in front
Retained(s) ==
  IF s.nmcmc = 0 THEN {IF s.ngfr > 0 THEN GfrIts(s) ELSE BurnIts(s)}
  ELSE CASE s.kg /\ s.kb -> {GfrIts(s) \o McmcIts(s), GfrIts(s) \o BurnIts(s) \o McmcIts(s), BurnIts(s) \o GfrIts(s) \o McmcIts(s)}
         [] s.kg -> {GfrIts(s) \o McmcIts(s)}
         [] s.kb -> {BurnIts(s) \o McmcIts(s)}
         [] OTHER -> {McmcIts(s)}
\* with no grow-from-root (burn-in) draws, asking to keep them too changes nothing
RetainedIf(s) == IF s.nmcmc > 0 /\ s.kg /\ s.kb /\ s.ngfr = 0 THEN {BurnIts(s) \o McmcIts(s)} ELSE Retained(s)
RECURSIVE LeafAt(_, _, _)
LeafAt(tr, n, x) == IF tr[n].l = 0 THEN tr[n].v ELSE LeafAt(tr, IF x[tr[n].f + 1] <= tr[n].t THEN tr[n].l ELSE tr[n].r, x)
VecSum(trees, x, d) == [c \in 1..d |-> Sum2(Len(trees), LAMBDA k : LeafAt(trees[k], 1, x)[c])]
Dot(u, v) == Sum2(Len(u), LAMBDA i : u[i] * v[i])
MaxMag(b) == FoldLeft(LAMBDA a, v : IF Mg(v) > a THEN Mg(v) ELSE a, 1, b)
\* features a forest splits on
SplitFeats(trees) == UNION {{tr[n].f : n \in {q \in DOMAIN tr : tr[q].l # 0}} : tr \in {trees[i] : i \in DOMAIN trees}}
=============================================================================
