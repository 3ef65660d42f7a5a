------------------------------ MODULE FitLoop -------------------------------
(* The working residual while a model of several parts is fitted: forests (the last one multiplied by a treatment  *)
(* coding that is drawn too) and random effects. Every part keeps what it last subtracted; before it is drawn again *)
(* it is added back, after that its new contribution is subtracted. Drawing the coding changes the contribution of  *)
(* the last forest without changing the forest.                                                                    *)
EXTENDS Integers, Sequences
CONSTANTS Vals, Codes, Outcome
VARIABLES mu, tau, code, rfx, held, resid
fv == <<mu, tau, code, rfx, held, resid>>
\* what is left of outcome y when the parts explain the values in p
Left(y, p) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE p[i] + S(i - 1) IN y - S(Len(p))
Init == mu = 0 /\ tau = 0 /\ code \in Codes /\ rfx = 0 /\ held = <<0, 0, 0>> /\ resid = Outcome
Replace(i, v) == held' = [held EXCEPT ![i] = v] /\ resid' = resid + held[i] - v
StepMu == \E v \in Vals : mu' = v /\ Replace(1, v) /\ UNCHANGED <<tau, code, rfx>>
StepTau == \E v \in Vals : tau' = v /\ Replace(2, v * code) /\ UNCHANGED <<mu, code, rfx>>
Recode == \E c \in Codes : code' = c /\ Replace(2, tau * c) /\ UNCHANGED <<mu, tau, rfx>>
Effects == \E v \in Vals : rfx' = v /\ Replace(3, v) /\ UNCHANGED <<mu, tau, code>>
Next == StepMu \/ StepTau \/ Recode \/ Effects
Spec == Init /\ [][Next]_fv
InvLeft == resid = Left(Outcome, <<mu, tau * code, rfx>>)
InvHeld == held = <<mu, tau * code, rfx>>
=============================================================================
