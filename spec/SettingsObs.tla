---------------------------- MODULE SettingsObs -----------------------------
(* What the settings of a BART or BCF fit govern.  A setting is named by a slot; slots ending in 1 and 2 belong to    *)
(* the first (prognostic) and the second (treatment effect) forest.  A setting that the caller gives is used as it is *)
(* given; one that is left out takes a fixed default or is calibrated from other settings and the data.               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Flt
Shared == {"grid", "nu", "lambda", "q", "sigma2", "ngfr", "nburn", "nmcmc", "sampsig"}
OfForest == {"trees", "alpha", "beta", "minleaf", "scale", "a", "b", "sampleaf"}
Forests(kind) == IF kind = "bcf" THEN {"1", "2"} ELSE {"1"}
Own(p, f) == p \o f
Slots(kind) == Shared \cup {Own(p, f) : p \in OfForest, f \in Forests(kind)} \cup (IF kind = "bcf" THEN {"code0", "code1"} ELSE {})
\* settings that, when left out, are calibrated, and what they are calibrated from
Calibrated(kind) == {"lambda", "sigma2"} \cup {Own(p, f) : p \in {"scale", "b"}, f \in Forests(kind)}
Sources(s) == CASE s = "lambda" -> {"nu", "q", "data"} [] s = "sigma2" -> {"data"}
                [] s \in {"scale1", "b1"} -> {"trees1"} [] s \in {"scale2", "b2"} -> {"trees2"} [] OTHER -> {}
\* the parts of the model and the settings they are handed
Parts(kind) == {"forest" \o f : f \in Forests(kind)} \cup {"leaf" \o f : f \in Forests(kind)} \cup {"sigma"}
Handed(p) == CASE p = "forest1" -> {"trees1", "alpha1", "beta1", "minleaf1", "scale1", "grid", "sigma2"}
               [] p = "forest2" -> {"trees2", "alpha2", "beta2", "minleaf2", "scale2", "grid", "sigma2"}
               [] p = "leaf1" -> {"a1", "b1"} [] p = "leaf2" -> {"a2", "b2"} [] p = "sigma" -> {"nu", "lambda"}

\* fixed defaults, as <<numerator, denominator>>
Fixed(lang, kind, s) ==
  CASE s = "grid" -> <<100, 1>> [] s = "nu" -> <<3, 1>> [] s = "q" -> <<9, 10>> [] s = "ngfr" -> <<5, 1>> [] s = "nburn" -> <<0, 1>> [] s = "nmcmc" -> <<100, 1>>
    [] s = "sampsig" -> <<1, 1>> [] s = "sampleaf1" -> <<1, 1>> [] s = "sampleaf2" -> <<0, 1>>
    [] s = "trees1" -> IF kind = "bcf" /\ lang = "r" THEN <<250, 1>> ELSE <<200, 1>> [] s = "trees2" -> <<50, 1>>
    [] s = "alpha1" -> <<95, 100>> [] s = "alpha2" -> <<25, 100>> [] s = "beta1" -> <<2, 1>> [] s = "beta2" -> <<3, 1>>
    [] s \in {"minleaf1", "minleaf2"} -> <<5, 1>> [] s \in {"a1", "a2"} -> <<3, 1>>
    [] s = "code0" -> <<0 - 1, 2>> [] s = "code1" -> <<1, 2>>
\* the leaf scale, and the scale of its prior, are this share of 1 / trees (outcomes have variance one)
ShareOf(lang, kind, s) == IF s \in {"scale2", "b2"} \/ (s = "b1" /\ kind = "bart" /\ lang = "r") THEN <<1, 2>> ELSE <<1, 1>>

Frac(r) == FDiv(FInt(r[1]), FInt(r[2]))
Near(x, y) == IF x = y THEN TRUE ELSE FLe(FMag(FSub(x, y)), FMul(FMag(y), <<16384, 0 - 23>>))

(* Calibration of lambda: P(IG(nu, nu lambda) <= s) = q for the residual variance s of a least squares fit, so        *)
(* nu lambda / s is the 1 - q quantile of the gamma distribution with shape nu and scale 1.  2^20 times the quantiles: *)
Nus == <<1, 2, 3, 4, 5, 10>>
Qs == <<50, 75, 90, 95, 99>>
GammaTable == <<<<726817, 301657, 110479, 53785, 10539>>, <<1759874, 1007974, 557645, 372624, 155771>>, <<2803955, 1811205, 1155599, 857412, 457226>>,
                <<3850435, 2658476, 1829523, 1432689, 863239>>, <<4897803, 3532234, 2550757, 2065852, 1341240>>, <<10138382, 8101179, 6523511, 5688950, 4330828>>>>
At(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
Quantile(nu, q) == FFix(GammaTable[At(Nus, nu)][At(Qs, q)], 20)
CalibratedLambda(nu, q, s) == FDiv(FMul(s, Quantile(nu, q)), FInt(nu))
\* the table says what it should: for whole nu, the upper tail at x is e^-x (1 + x + .. + x^(nu-1)/(nu-1)!)
RECURSIVE Pow2(_, _)
Pow2(x, k) == IF k = 0 THEN x ELSE Pow2(FMul(x, x), k - 1)
RECURSIVE ExpSeries(_, _, _)
ExpSeries(x, t, k) == IF k = 8 THEN t ELSE FAdd(t, ExpSeries(x, FDiv(FMul(t, x), FInt(k)), k + 1))
\* e^x for 0 <= x < 16
Exp(x) == Pow2(ExpSeries(FDiv(x, FInt(16)), FInt(1), 1), 4)
RECURSIVE Terms(_, _, _, _)
Terms(x, t, k, nu) == IF k = nu THEN FZero ELSE FAdd(t, Terms(x, FDiv(FMul(t, x), FInt(k + 1)), k + 1, nu))
UpperTail(nu, x) == FDiv(Terms(x, FInt(1), 0, nu), Exp(x))
TableRight == \A i \in DOMAIN Nus, j \in DOMAIN Qs : FAbsI(FToFix(UpperTail(Nus[i], FFix(GammaTable[i][j], 20)), 10) - (Qs[j] * 1024) \div 100) <= 10

(* Weights of the columns a forest may split on: a covariate's weight is shared equally by the columns that encode    *)
(* it; covariates that are left out, and propensities a forest is not to use, have weight zero.                        *)
Count(orig, v) == Cardinality({j \in DOMAIN orig : orig[j] = v})
RelWeight(orig, wt, keep, j) == IF orig[j] \notin keep THEN FZero ELSE FDiv(wt[orig[j]], FInt(Count(orig, orig[j])))
Proportional(w, r) == /\ Len(w) = Len(r)
                      /\ \A j \in DOMAIN r : (r[j] = FZero) = (w[j] = FZero) /\ w[j][1] >= 0
                      /\ \A i, j \in DOMAIN r : r[i] # FZero /\ r[j] # FZero => Near(FMul(w[i], r[j]), FMul(w[j], r[i]))
Diagonal(x, d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN x ELSE FZero]]
=============================================================================
