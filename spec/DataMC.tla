------------------------------- MODULE DataMC -------------------------------
(* Handing arrays to a dataset: the interface makes a contiguous scratch copy of the view (row-major) or passes a      *)
(* contiguous view as it is (row- or column-major), the library copies value by value. `want` is the view's content    *)
(* at the time of the call; the caller keeps writing to its memory.                                                     *)
EXTENDS DataObs, TLC, Json
CONSTANTS Cells, Values, MaxN, MaxP, Fields, MaxOps, Emit
VARIABLES mem, held, want, hist
xv == <<mem, held, want>>
View == xv
Strides == {-(2), -(1), 0, 1, 2, 3}
Views == {v \in [n : 1..MaxN, p : 1..MaxP, off : 0..(Cells - 1), s0 : Strides, s1 : Strides] : InMemory([c \in 1..Cells |-> 0], v)}
\* reading num_row x num_col values from contiguous memory
LoadRow(c, n, p) == [i \in 1..n |-> [j \in 1..p |-> c[p * (i - 1) + j]]]
LoadCol(c, n, p) == [i \in 1..n |-> [j \in 1..p |-> c[n * (j - 1) + i]]]
Scratch(m, v) == [c \in 1..(v.n * v.p) |-> ViewRows(m, v)[((c - 1) \div v.p) + 1][((c - 1) % v.p) + 1]]
RowMajor(v) == v.s0 = v.p /\ v.s1 = 1
ColMajor(v) == v.s0 = 1 /\ v.s1 = v.n
Taken(m, v) == IF RowMajor(v) THEN LoadRow(SubSeq(m, v.off + 1, v.off + v.n * v.p), v.n, v.p)
               ELSE IF ColMajor(v) THEN LoadCol(SubSeq(m, v.off + 1, v.off + v.n * v.p), v.n, v.p)
               ELSE LoadRow(Scratch(m, v), v.n, v.p)
None == <<>>
Init == mem = [c \in 1..Cells |-> (c % 2)] /\ held = [f \in Fields |-> None] /\ want = [f \in Fields |-> None] /\ hist = <<>>
Log(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)
Put == \E f \in Fields, v \in Views : held' = [held EXCEPT ![f] = Taken(mem, v)] /\ want' = [want EXCEPT ![f] = ViewRows(mem, v)] /\ UNCHANGED mem
       /\ Log([op |-> "put", f |-> f, n |-> v.n, p |-> v.p, off |-> v.off, s0 |-> v.s0, s1 |-> v.s1])
Write == \E c \in 1..Cells, x \in Values : mem' = [mem EXCEPT ![c] = x] /\ UNCHANGED <<held, want>> /\ Log([op |-> "write", i |-> c - 1, v |-> x])
Next == Put \/ Write
Spec == Init /\ [][Next]_<<xv, hist>>
InvHeld == held = want
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)
=============================================================================
