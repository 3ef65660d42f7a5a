------------------------------- MODULE CutObs -------------------------------
(* What the candidate bins of a node and feature must be.  x[i]: feature value of the i-th row of the node's   *)
(* sorted listing, o[i]: that row's (integer) outcome; a bin is [b |-> first offset from 0, len |-> rows,       *)
(* v |-> cutpoint, vec |-> categories sent left] in the order offered.                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
BinRows(q) == (q.b + 1)..(q.b + q.len)
Distinct(x) == {x[i] : i \in DOMAIN x}
Plus(p, q) == p + q
BinSum(o, q) == FoldLeft(Plus, 0, SubSeq(o, q.b + 1, q.b + q.len))
Tiles(bins, n) == /\ \A k \in DOMAIN bins : bins[k].len >= 1 /\ BinRows(bins[k]) \subseteq 1..n
                  /\ \A k, m \in DOMAIN bins : k # m => BinRows(bins[k]) \cap BinRows(bins[m]) = {}
                  /\ UNION {BinRows(bins[k]) : k \in DOMAIN bins} = 1..n
MaxIn(x, S) == CHOOSE v \in {x[i] : i \in S} : \A i \in S : x[i] <= v
Shares(x, bins) == \A k, m \in DOMAIN bins : k # m => \A i \in BinRows(bins[k]), j \in BinRows(bins[m]) : x[i] # x[j]
Preceding(bins, k) == UNION {BinRows(bins[m]) : m \in 1..k}
BinsOK(kind, x, o, grid, bins, unit) ==
  LET n == Len(x) IN
  /\ n >= 1 /\ Tiles(bins, n) /\ Shares(x, bins)
  /\ \A k \in DOMAIN bins : bins[k].v = MaxIn(x, BinRows(bins[k]))
  /\ kind \in {"numeric", "ordered"} => /\ \A k \in DOMAIN bins : Preceding(bins, k) = {i \in 1..n : x[i] <= bins[k].v}
                                        /\ \A k \in 1..(Len(bins)-1) : bins[k].b < bins[k+1].b
  /\ kind = "unordered" => /\ \A k \in DOMAIN bins : Preceding(bins, k) = {i \in 1..n : (x[i] \div unit) \in bins[k].vec}
                           /\ \A k \in DOMAIN bins : bins[k].vec \subseteq {v \div unit : v \in Distinct(x)}
                           /\ \A k \in 1..(Len(bins)-1) : BinSum(o, bins[k]) * bins[k+1].len <= BinSum(o, bins[k+1]) * bins[k].len
  /\ (kind # "numeric" \/ n <= grid) => Len(bins) = Cardinality(Distinct(x))
  /\ (kind = "numeric" /\ n > grid) => Len(bins) <= grid
=============================================================================
