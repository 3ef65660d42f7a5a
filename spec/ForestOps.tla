------------------------------ MODULE ForestOps -----------------------------
(* Collections of forests: samples appended, copied, edited, initialised, saved and reloaded; what they   *)
(* predict; which leaf of which tree each row reaches; and the forest kernel.                             *)
(* fs[f] = [s: sequence of samples (each a sequence of trees), dim, const, nt, root: pending root or <<>>] *)
EXTENDS Forest
VARIABLES fs, data
fvars == <<fs, data>>
FInit == fs = [x \in {} |-> <<>>] /\ data = [x \in {} |-> <<>>]

Zero(n) == [i \in 1..n |-> 0]
Fresh(nt, d) == [j \in 1..nt |-> Stump(Zero(d))]
SetF(f, r) == fs' = (f :> r) @@ fs /\ UNCHANGED data
Upd(f, s) == fs' = [fs EXCEPT ![f].s = s] /\ UNCHANGED data
NewForest(f, nt, d, c, ns) == SetF(f, [s |-> [k \in 1..ns |-> Fresh(nt, d)], dim |-> d, const |-> c, nt |-> nt, root |-> <<>>])
\* the forest that the first sample starts from, before there is any sample
InitRoot(f, v) == fs[f].s = <<>> /\ fs[f].root = <<>> /\ fs' = [fs EXCEPT ![f].root = [j \in 1..fs[f].nt |-> SetAllLeaves(Stump(Zero(fs[f].dim)), v)]] /\ UNCHANGED data
TakeRoot(f) == fs[f].root # <<>> /\ fs' = [fs EXCEPT ![f].s = <<fs[f].root>>, ![f].root = <<>>] /\ UNCHANGED data
AddSamples(f, n) == LET o == fs[f] IN fs' = [fs EXCEPT ![f].s = o.s \o [k \in 1..n |-> Fresh(o.nt, o.dim)], ![f].root = <<>>] /\ UNCHANGED data
CopySample(f, a, b) == Upd(f, [fs[f].s EXCEPT ![a] = fs[f].s[b]])
\* only offered while every tree of the sample is a stump
SetLeaves(f, k, v) == (\A j \in DOMAIN fs[f].s[k] : DOMAIN fs[f].s[k][j] = {1}) /\ Upd(f, [fs[f].s EXCEPT ![k] = [j \in DOMAIN @ |-> SetAllLeaves(@[j], v)]])
EditTree(f, k, j, T) == Upd(f, [fs[f].s EXCEPT ![k][j] = T])
ResetTree(f, k, j) == EditTree(f, k, j, Stump(Zero(fs[f].dim)))
ExpandIn(f, k, j, h, rule, lv, rv) == h \in Leaves(fs[f].s[k][j]) /\ EditTree(f, k, j, Expand(fs[f].s[k][j], h, rule, lv, rv))
CollapseIn(f, k, j, h, v) == h \in Splits(fs[f].s[k][j]) /\ EditTree(f, k, j, Collapse(fs[f].s[k][j], h, v))
SetLeafIn(f, k, j, h, v) == h \in Leaves(fs[f].s[k][j]) /\ EditTree(f, k, j, SetLeaf(fs[f].s[k][j], h, v))
CloneInto(f, k, j, f2, k2, j2) == EditTree(f, k, j, fs[f2].s[k2][j2])
Reload(f, f2) == SetF(f2, fs[f])
SetData(d, X, B) == data' = (d :> [X |-> X, B |-> B]) @@ data /\ UNCHANGED fs

----------------------------------------------------------------------------
(* observations *)
NRows(d) == Len(data[d].X)
BasisRow(d, i) == IF data[d].B = <<>> THEN <<>> ELSE data[d].B[i]
Fit(f, k, d, i) == ForestFit(fs[f].s[k], data[d].X[i], BasisRow(d, i), fs[f].const)
FitPart(f, k, d, i, b, e) == FitFrom(fs[f].s[k], data[d].X[i], BasisRow(d, i), fs[f].const, b + 1, e)
RawPart(f, k, d, i, m, b, e) == RawFrom(fs[f].s[k], data[d].X[i], m, b + 1, e)
\* one column per sample, in order
PredictionOf(f, d) == [x \in 1..(NRows(d) * Len(fs[f].s)) |-> Fit(f, ((x-1) \div NRows(d)) + 1, d, ((x-1) % NRows(d)) + 1)]
RawAt(f, k, d, x) == LET q == fs[f].dim IN ForestRaw(fs[f].s[k], data[d].X[((x-1) \div q) + 1], ((x-1) % q) + 1)
RawOf(f, k, d) == [x \in 1..(NRows(d) * fs[f].dim) |-> RawAt(f, k, d, x)]
Sentinel == -55
\* a sub-range of trees written at an offset into a longer vector touches nothing else
Windowed(len, off, n, F(_)) == [x \in 1..len |-> IF x > off /\ x <= off + n THEN F(x - off) ELSE Sentinel]

\* leaf indices: per tree, leaves numbered consecutively after those of the earlier trees
RECURSIVE LeafBase(_, _)
LeafBase(F, j) == IF j = 1 THEN 0 ELSE LeafBase(F, j-1) + Cardinality(Leaves(F[j-1]))
LeafIdxOK(f, k, d, idx) ==
  LET F == fs[f].s[k]  n == NRows(d) IN
  /\ Len(idx) = n * Len(F)
  /\ \A j \in DOMAIN F :
      LET base == LeafBase(F, j)
          R == [i \in 1..n |-> Route(F[j], data[d].X[i])]
          I(i) == idx[(j-1)*n + i]
      IN /\ \A i \in 1..n : I(i) >= base /\ I(i) < base + Cardinality(Leaves(F[j]))
         /\ \A a, b \in 1..n : (I(a) = I(b)) <=> (R[a] = R[b])
Routes(f, k, d) == [j \in DOMAIN fs[f].s[k] |-> [i \in 1..NRows(d) |-> Route(fs[f].s[k][j], data[d].X[i])]]
\* two index vectors (train and test) numbered by the same forest agree on which rows share a leaf
SameNumbering(f, k, d, idx, d2, idx2) ==
  LET F == fs[f].s[k]  R == Routes(f, k, d)  R2 == Routes(f, k, d2) IN
  \A j \in DOMAIN F : \A a \in 1..NRows(d), b \in 1..NRows(d2) :
     (idx[(j-1)*NRows(d) + a] = idx2[(j-1)*NRows(d2) + b]) <=> (R[j][a] = R2[j][b])
KernelOf(f, k, d, d2) ==
  LET R == Routes(f, k, d)  R2 == Routes(f, k, d2) IN
  [a \in 1..NRows(d) |-> [b \in 1..NRows(d2) |-> Cardinality({j \in DOMAIN R : R[j][a] = R2[j][b]})]]
=============================================================================
