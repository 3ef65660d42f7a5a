------------------------------- MODULE DataObs ------------------------------
(* A caller's array is a view of memory: n rows and p columns, value (i, j) at cell off + i*s0 + j*s1 (0-based).      *)
EXTENDS Integers, Sequences, FiniteSets
ViewRows(mem, v) == [i \in 1..v.n |-> [j \in 1..v.p |-> mem[v.off + (i - 1) * v.s0 + (j - 1) * v.s1 + 1]]]
InMemory(mem, v) == \A i \in {0, v.n - 1}, j \in {0, v.p - 1} : v.off + i * v.s0 + j * v.s1 \in 0..(Len(mem) - 1)
=============================================================================
