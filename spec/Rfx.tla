--------------------------------- MODULE Rfx --------------------------------
(* The random-effects part of a sampler: the residual is shared with another term (a forest); an iteration adds  *)
(* the current effects back, redraws group and working parameters and variances (any values), and takes the new   *)
(* effects out; samples are recorded into flat arrays, written to a document and read back.                       *)
EXTENDS RfxObs, Json
CONSTANTS LabelSets, Bases, Ys, Alphas, Xis, Others, MaxOps, Emit, NSigs
VARIABLES lab, B, y, r, pred, alpha, xi, sig, other, phase, fa, fx, fb, fs, ghost, n, hist, q
rv == <<lab, B, y, r, pred, alpha, xi, sig, other, phase, fa, fx, fb, fs, ghost, n, q>>
NC == Len(B[1])
G == NG(lab)
Rows == DOMAIN lab
Log(o) == hist' = Append(hist, o)
Sigs == [1..NC -> 1..NSigs]
Init == /\ lab \in LabelSets /\ B \in {b \in Bases : Len(b) = Len(lab)} /\ y \in {v \in Ys : Len(v) = Len(lab)} /\ other = [i \in DOMAIN lab |-> 0]
        /\ r = y /\ pred = [i \in DOMAIN lab |-> 0] /\ phase = "rest"
        /\ alpha = [i \in 1..NC |-> 1] /\ xi = [g \in 1..G |-> [i \in 1..NC |-> 0]] /\ sig = [i \in 1..NC |-> 1]
        /\ fa = <<>> /\ fx = <<>> /\ fb = <<>> /\ fs = <<>> /\ ghost = <<>> /\ n = 0 /\ q = 1
        /\ hist = <<[op |-> "begin", lab |-> lab, B |-> B, y |-> y]>>
Step == n < MaxOps /\ n' = n + 1
Keep == UNCHANGED <<lab, B, y>>
Stored == UNCHANGED <<fa, fx, fb, fs, ghost>>
AddBack == /\ phase = "rest" /\ Step /\ phase' = "drawG" /\ q' = 1 /\ r' = [i \in Rows |-> r[i] + pred[i]] /\ pred' = [i \in Rows |-> 0]
           /\ UNCHANGED <<alpha, xi, sig, other>> /\ Keep /\ Stored /\ Log([op |-> "iter"])
DrawGroup == /\ phase = "drawG" /\ q <= G /\ \E v \in [1..NC -> Xis] : xi' = [xi EXCEPT ![q] = v]
             /\ q' = q + 1 /\ UNCHANGED <<r, pred, alpha, sig, other, phase, n, hist>> /\ Keep /\ Stored
DrawWorking == /\ phase = "drawG" /\ q > G /\ alpha' \in [1..NC -> Alphas] /\ phase' = "drawV" /\ UNCHANGED <<r, pred, xi, sig, other, n, hist, q>> /\ Keep /\ Stored
DrawVar == phase = "drawV" /\ sig' \in Sigs /\ phase' = "out" /\ UNCHANGED <<r, pred, alpha, xi, other, n, hist, q>> /\ Keep /\ Stored
TakeOut == /\ phase = "out" /\ pred' = RowFits(lab, B, alpha, xi) /\ r' = [i \in Rows |-> r[i] - RowFits(lab, B, alpha, xi)[i]] /\ phase' = "rest"
           /\ UNCHANGED <<alpha, xi, sig, other, n, hist, q>> /\ Keep /\ Stored
\* another term of the model is resampled: its new fit replaces the old one in the residual
Forest == /\ phase = "rest" /\ Step /\ \E o \in Others : o # other[1] /\ other' = [i \in Rows |-> o * i] /\ r' = [i \in Rows |-> r[i] + other[i] - o * i]
          /\ UNCHANGED <<pred, alpha, xi, sig, phase, q>> /\ Keep /\ Stored /\ Log([op |-> "forest"])
SetParams == /\ phase = "rest" /\ Step /\ \E a \in [1..NC -> Alphas] : \E v \in [1..G -> [1..NC -> Xis]] : (alpha' = a /\ xi' = v /\ Log([op |-> "set", alpha |-> a, xi |-> v]))
             /\ UNCHANGED <<r, pred, sig, other, phase, q>> /\ Keep /\ Stored
\* the flat arrays as the container fills them
Store == /\ phase = "rest" /\ Step /\ Len(ghost) < 3
         /\ fa' = fa \o alpha /\ fs' = fs \o sig
         /\ fx' = fx \o [k \in 1..(G * NC) |-> xi[1 + ((k - 1) \div NC)][1 + ((k - 1) % NC)]]
         /\ fb' = fb \o [k \in 1..(G * NC) |-> xi[1 + ((k - 1) \div NC)][1 + ((k - 1) % NC)] * alpha[1 + ((k - 1) % NC)]]
         /\ ghost' = Append(ghost, Sample(alpha, xi, sig))
         /\ UNCHANGED <<r, pred, alpha, xi, sig, other, phase, q>> /\ Keep /\ Log([op |-> "store"])
Reload == /\ phase = "rest" /\ Step /\ ghost # <<>> /\ UNCHANGED <<r, pred, alpha, xi, sig, other, phase, q>> /\ Keep /\ Stored /\ Log([op |-> "reload"])
Next == AddBack \/ DrawGroup \/ DrawWorking \/ DrawVar \/ TakeOut \/ Forest \/ SetParams \/ Store \/ Reload
Spec == Init /\ [][Next]_<<rv, hist>>
InvResid == \A i \in Rows : r[i] + pred[i] + other[i] = y[i]
InvFlat == /\ fa = FlatComp(ghost, LAMBDA s : s.alpha, NC) /\ fs = FlatComp(ghost, LAMBDA s : s.sig, NC)
           /\ fx = FlatGrp(ghost, LAMBDA s : s.xi, NC, G) /\ fb = FlatGrp(ghost, LAMBDA s : s.beta, NC, G)
\* every row is in exactly one group and groups are numbered without gaps in label order
InvGroups == /\ UNION {RowsOfGroup(lab, g) : g \in 0..(G - 1)} = Rows /\ \A g \in 0..(G - 1) : RowsOfGroup(lab, g) # {}
             /\ \A i, j \in Rows : (lab[i] < lab[j]) <=> (Group(lab, lab[i]) < Group(lab, lab[j]))
\* predictions read from the flat array equal basis . (working * group parameter) of the sample
InvPredict == \A s \in DOMAIN ghost : \A i \in Rows :
   SumTo(NC, LAMBDA k : B[i][k] * fb[(s - 1) * G * NC + Group(lab, lab[i]) * NC + k]) = Effect(B[i], ghost[s].alpha, ghost[s].xi[Group(lab, lab[i]) + 1])
PropAppend == [][Len(ghost') >= Len(ghost) /\ SubSeq(fb', 1, Len(fb)) = fb /\ SubSeq(fa', 1, Len(fa)) = fa]_<<rv, hist>>
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)
=============================================================================
