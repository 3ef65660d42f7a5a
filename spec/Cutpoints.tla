------------------------------ MODULE Cutpoints -----------------------------
(* The scan that turns a node's sorted rows into bins, as a state machine: rows are taken in one at a time,    *)
(* a bin is closed at the last row, and otherwise when the next value differs and (thinned numeric features)   *)
(* enough rows are in it.  Unordered categories are rearranged by average outcome afterwards.                   *)
EXTENDS CutObs, TLC
CONSTANTS MaxN, VMax, Outs, Grids
VARIABLES x, o, kind, grid, i, b, len, bins, done
cv == <<x, o, kind, grid, i, b, len, bins, done>>
N == Len(x)
Sorted(s) == \A k \in 1..(Len(s)-1) : s[k] <= s[k+1]
Init == /\ \E n \in 1..MaxN : /\ x \in {s \in [1..n -> 0..VMax] : Sorted(s)}
                              /\ o \in [1..n -> Outs]
        /\ kind \in {"numeric", "ordered", "unordered"} /\ grid \in Grids
        /\ (kind # "unordered" => \A k \in DOMAIN o : o[k] = CHOOSE q \in Outs : TRUE)
        /\ i = 0 /\ b = 0 /\ len = 0 /\ bins = <<>> /\ done = FALSE
Thin == kind = "numeric" /\ N > grid
Close == Append(bins, [b |-> b, len |-> len + 1, v |-> x[i+1], vec |-> {}])
TakeLast == i < N /\ i + 1 = N /\ bins' = Close /\ i' = i + 1 /\ UNCHANGED <<x, o, kind, grid, b, len, done>>
\* the bin is full: the next value differs and the bin has at least its share N/grid of the rows
Full == x[i+2] # x[i+1] /\ (Thin => (len + 1) * grid >= N)
TakeClose == i + 1 < N /\ Full /\ bins' = Close /\ i' = i + 1 /\ b' = i + 1 /\ len' = 0 /\ UNCHANGED <<x, o, kind, grid, done>>
Take == i + 1 < N /\ ~Full /\ i' = i + 1 /\ len' = len + 1 /\ UNCHANGED <<x, o, kind, grid, b, bins, done>>
\* category bins in nondecreasing order of average outcome (ties in order of category)
Before(p, q) == LET s == BinSum(o, p) * q.len t == BinSum(o, q) * p.len IN s < t \/ (s = t /\ p.v < q.v)
Rank(p) == 1 + Cardinality({k \in DOMAIN bins : Before(bins[k], p)})
Arranged == [r \in DOMAIN bins |-> CHOOSE p \in {bins[k] : k \in DOMAIN bins} : Rank(p) = r]
WithVec(q) == [k \in DOMAIN q |-> [q[k] EXCEPT !.vec = {q[m].v : m \in 1..k}]]
Finish == i = N /\ ~done /\ done' = TRUE /\ bins' = (IF kind = "unordered" THEN WithVec(Arranged) ELSE bins) /\ UNCHANGED <<x, o, kind, grid, i, b, len>>
Next == Take \/ TakeClose \/ TakeLast \/ Finish
Spec == Init /\ [][Next]_cv
\* while scanning: the closed bins and the open one cover exactly the rows taken in so far
InvScan == ~done => /\ UNION {BinRows(bins[k]) : k \in DOMAIN bins} = 1..(IF i = N THEN N ELSE b)
                    /\ (i < N => b + len = i)
InvBins == done => BinsOK(kind, x, o, grid, bins, 1)
=============================================================================
