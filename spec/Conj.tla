-------------------------------- MODULE Conj --------------------------------
(* Updating the law of a variance and of a pair of treatment codings as values arrive, in any grouping and order.   *)
(* Twice the shape and scale are kept, so that all numbers are integers.  The codings b0, b1 multiply the same      *)
(* effect t of a row, b0 when its treatment is 0 and b1 when it is 1; the precision (with noise 1 and prior          *)
(* variances 1/2) is a 2 by 2 matrix.  A row of a binary treatment tells of one coding only, so they can be drawn    *)
(* one after the other without regard to each other.                                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS Vals, Effects, Treatments, MaxSeen, HalfOfData, HalfOfPrior, Shape2, Scale2
VARIABLES seen, law, rows, prec, num
cv == <<seen, law, rows, prec, num>>
Sq(q) == FoldLeft(LAMBDA a, x : a + x * x, 0, q)
\* the law after a group of values, from the law before it; in the correct update a value counts half as much in the
\* shape and the scale as it is written here (twice), and what was known before counts in full
Update(w, q) == [sh |-> (IF HalfOfPrior THEN w.sh \div 2 ELSE w.sh) + HalfOfData * Len(q), sc |-> (IF HalfOfPrior THEN w.sc \div 2 ELSE w.sc) + HalfOfData * Sq(q)]
Prior == [sh |-> Shape2, sc |-> Scale2]
\* logarithm of the density of the values at variance s up to terms without s: every value has s^(-1/2) e^(-x^2/(2 s)),
\* so together they carry s^(-n/2) and e^(-(sum x^2)/2s); the prior carries s^(-shape - 1) and e^(-scale/s)
Kernel(q) == [sh |-> Shape2 + Len(q), sc |-> Scale2 + Sq(q)]
Init == seen = <<>> /\ law = Prior /\ rows = <<>> /\ prec = <<<<2, 0>>, <<0, 2>>>> /\ num = <<0, 0>>
See == \E x \in Vals : Len(seen) < MaxSeen /\ seen' = Append(seen, x) /\ law' = Update(law, <<x>>) /\ UNCHANGED <<rows, prec, num>>
SeeMany == \E x, y \in Vals : Len(seen) + 2 <= MaxSeen /\ seen' = seen \o <<x, y>> /\ law' = Update(law, <<x, y>>) /\ UNCHANGED <<rows, prec, num>>
Row(t, z) == <<t * (1 - z), t * z>>
SeeRow == \E t \in Effects, z \in Treatments, y \in Vals :
  /\ Len(rows) < MaxSeen /\ rows' = Append(rows, <<t, z, y>>)
  /\ LET d == Row(t, z) IN /\ prec' = [i \in 1..2 |-> [j \in 1..2 |-> prec[i][j] + d[i] * d[j]]]
                           /\ num' = [i \in 1..2 |-> num[i] + d[i] * y]
  /\ UNCHANGED <<seen, law>>
Next == See \/ SeeMany \/ SeeRow
Spec == Init /\ [][Next]_cv
\* the law is prior times likelihood of everything seen, whatever the grouping
InvLaw == law = Kernel(seen)
\* hence the order does not matter
InvOrder == \A i \in 1..(Len(seen) - 1) : Kernel(seen) = Kernel([seen EXCEPT ![i] = seen[i + 1], ![i + 1] = seen[i]])
\* the codings are told apart by the rows
InvApart == prec[1][2] = 0 /\ prec[2][1] = 0
InvCodes == \A k \in 1..2 : LET T == SelectSeq(rows, LAMBDA r : r[2] = k - 1) IN
              /\ prec[k][k] = 2 + FoldLeft(LAMBDA a, r : a + r[1] * r[1], 0, T)
              /\ num[k] = FoldLeft(LAMBDA a, r : a + r[1] * r[3], 0, T)
=============================================================================
