------------------------------- MODULE RfxObs -------------------------------
(* Random effects: groups numbered by ascending label, effects of a group being working parameter times group    *)
(* parameter in each component, and the flat storage of recorded samples.                                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Labels(lab) == {lab[i] : i \in DOMAIN lab}
NG(lab) == Cardinality(Labels(lab))
\* group number (from 0) of a label
Group(lab, q) == Cardinality({k \in Labels(lab) : k < q})
RowsOfGroup(lab, g) == {i \in DOMAIN lab : Group(lab, lab[i]) = g}
Vec(n, f(_)) == [i \in 1..n |-> f(i)]
SumTo(n, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> i])
\* effect of a row: basis . (alpha * xi of its group);  xi[g+1][i], alpha[i]
Effect(b, alpha, xig) == SumTo(Len(b), LAMBDA i : b[i] * alpha[i] * xig[i])
RowFits(lab, B, alpha, xi) == [i \in DOMAIN lab |-> Effect(B[i], alpha, xi[Group(lab, lab[i]) + 1])]
\* one recorded sample, and the flat arrays holding a list of them (group-major within a sample, component fastest)
Sample(alpha, xi, sig) == [alpha |-> alpha, xi |-> xi, beta |-> [g \in DOMAIN xi |-> [i \in DOMAIN alpha |-> alpha[i] * xi[g][i]]], sig |-> sig]
FlatComp(ss, sel(_), nc) == [q \in 1..(Len(ss) * nc) |-> sel(ss[1 + ((q - 1) \div nc)])[1 + ((q - 1) % nc)]]
FlatGrp(ss, sel(_), nc, ng) == [q \in 1..(Len(ss) * nc * ng) |-> LET s == 1 + ((q - 1) \div (nc * ng)) w == (q - 1) % (nc * ng) IN sel(ss[s])[1 + (w \div nc)][1 + (w % nc)]]
\* prediction of a row from sample s: basis . stored effects of the group its label is mapped to
PredRow(s, b, g) == SumTo(Len(b), LAMBDA i : b[i] * s.beta[g + 1][i])
Mag(a) == IF a < 0 THEN 0 - a ELSE a
=============================================================================
