------------------------------ MODULE SeedsObs ------------------------------
(* A run is known by its key: data, settings and seed. `table[k]` is what the runs with key k have been seen to       *)
(* produce, one entry per step; whichever run gets there first fills it in, all the others have to agree.            *)
EXTENDS Integers, Sequences, TLC
Row(table, k) == IF k \in DOMAIN table THEN table[k] ELSE <<>>
Agrees(table, k, p, out) == p <= Len(Row(table, k)) => Row(table, k)[p] = out
Learn(table, k, p, out) == IF p <= Len(Row(table, k)) THEN table
                           ELSE [q \in DOMAIN table \cup {k} |-> IF q = k THEN Append(Row(table, k), out) ELSE table[q]]
=============================================================================
