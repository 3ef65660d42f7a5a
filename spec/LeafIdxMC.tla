------------------------------ MODULE LeafIdxMC -----------------------------
(* Enumerates forests of MaxTrees trees and checks the laws of leaf numbering and of the kernel that the   *)
(* definitions in ForestOps must satisfy (indices of different trees never overlap, the kernel is          *)
(* symmetric with the number of trees on the diagonal, and equals the inner product of one-hot rows).      *)
EXTENDS ForestOps, Json
CONSTANTS MaxTrees, MaxDepth, Emit
VARIABLES F, open
Rules == {Num(0, 0), Num(0, SC)}
Xs == <<<<-SC>>, <<0>>, <<SC \div 2>>, <<SC>>, <<2*SC>>>>
vars == <<fs, data, F, open>>
Init == F = <<Stump(<<1>>)>> /\ open = {1} /\ fs = [x \in {} |-> <<>>] /\ data = [x \in {} |-> <<>>]
First(S) == CHOOSE h \in S : \A g \in S : h <= g
Last == Len(F)
Same == UNCHANGED fvars
Grow == open # {} /\ Same /\ LET h == First(open) IN Depth(h) < MaxDepth /\ \E r \in Rules :
          F' = [F EXCEPT ![Last] = Expand(@, h, r, <<1>>, <<1>>)] /\ open' = (open \ {h}) \cup {2*h, 2*h+1}
Stop == open # {} /\ Same /\ F' = F /\ open' = open \ {First(open)}
NextTree == open = {} /\ Last < MaxTrees /\ Same /\ F' = Append(F, Stump(<<1>>)) /\ open' = {1}
Spec == Init /\ [][Grow \/ Stop \/ NextTree]_vars
Done == open = {}
R(i, j) == Route(F[j], Xs[i])
\* rank of a leaf among the leaves of its tree: one admissible numbering
Rank(j, h) == Cardinality({g \in Leaves(F[j]) : g < h})
Idx(i, j) == LeafBase(F, j) + Rank(j, R(i, j))
K(a, b) == Cardinality({j \in DOMAIN F : R(a, j) = R(b, j)})
InvDisjoint == Done => \A i, k \in DOMAIN Xs : \A j, m \in DOMAIN F : j # m => Idx(i, j) # Idx(k, m)
InvKernel == Done => \A a, b \in DOMAIN Xs : K(a, b) = K(b, a) /\ K(a, a) = Len(F)
               /\ K(a, b) = Cardinality({Idx(a, j) : j \in DOMAIN F} \cap {Idx(b, j) : j \in DOMAIN F})
TJ(T) == {<<h, [k |-> T[h].k, f |-> T[h].f, t |-> T[h].t]>> : h \in DOMAIN T}
InvEmit == (Emit /\ Done /\ Last = MaxTrees) => PrintT(<<"BEH", ToJson([j \in DOMAIN F |-> TJ(F[j])])>>)
=============================================================================
