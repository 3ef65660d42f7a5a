------------------------------ MODULE SplitEval -----------------------------
(* The three ways a sampler weighs a split, as one state machine over all small data sets: candidate bins are   *)
(* taken in one by one into the left statistic and the right one is obtained by subtraction; a proposed split    *)
(* routes rows one by one; an existing split reads the rows recorded in its two children.                        *)
EXTENDS SplitObs
CONSTANTS MaxN, VMax, Ys, Ks, Bs, MinLeaf
VARIABLES X, y, K, B, kind, sub, order, at, left, offered, i, pl, pr, phase
vars == <<X, y, K, B, kind, sub, order, at, left, offered, i, pl, pr, phase>>
N == Len(X)
Rows == sub
Vals(R) == {X[r][1] \div SC : r \in R}
Zero == Stat({}, K, y, B)
RuleUpTo(q) == IF kind = "cat" THEN Cat(0, {order[m] : m \in 1..q}) ELSE Num(0, order[q] * SC)
Sorted(s) == \A a \in 1..(Len(s)-1) : s[a] < s[a+1]
Perms(S) == {s \in [1..Cardinality(S) -> S] : Range(s) = S}
Init == /\ \E m \in 1..MaxN : /\ X \in [1..m -> {<<v * SC>> : v \in 0..VMax}] /\ y \in [1..m -> Ys] /\ K \in [1..m -> Ks] /\ B \in [1..m -> Bs]
        /\ kind \in {"num", "cat"}
        \* the node holds some of the rows; bins are one per value, ascending or (categories) in any order
        /\ sub \in (SUBSET DOMAIN X) \ {{}}
        /\ order \in {s \in Perms(Vals(sub)) : kind = "cat" \/ Sorted(s)}
        /\ at = 0 /\ left = Zero /\ offered = {} /\ i = 1 /\ pl = Zero /\ pr = Zero /\ phase = "bins"
Node == Stat(Rows, K, y, B)
\* one more bin to the left; the right side is what remains of the node
Bin == /\ phase = "bins" /\ at + 1 < Len(order)
       /\ LET l2 == AddStat(left, Stat({r \in Rows : X[r][1] = order[at+1] * SC}, K, y, B)) r2 == SubStat(Node, l2) IN
            /\ left' = l2
            /\ offered' = IF l2[1] >= MinLeaf /\ r2[1] >= MinLeaf THEN offered \cup {[q |-> at + 1, l |-> l2, r |-> r2]} ELSE offered
       /\ at' = at + 1 /\ UNCHANGED <<X, y, K, B, kind, sub, order, i, pl, pr, phase>>
BinsDone == phase = "bins" /\ at + 1 >= Len(order) /\ phase' = "route" /\ at' = 1 /\ UNCHANGED <<X, y, K, B, kind, sub, order, left, offered, i, pl, pr>>
\* proposed split number "at": rows routed one at a time
RouteRow == /\ phase = "route" /\ i <= N
            /\ IF i \notin Rows THEN UNCHANGED <<pl, pr>>
               ELSE LET s == Stat({i}, K, y, B) IN IF GoesLeft(RuleUpTo(at), X[i][1]) THEN pl' = AddStat(pl, s) /\ UNCHANGED pr ELSE pr' = AddStat(pr, s) /\ UNCHANGED pl
            /\ i' = i + 1 /\ UNCHANGED <<X, y, K, B, kind, sub, order, at, left, offered, phase>>
RouteNext == /\ phase = "route" /\ i > N /\ at < Len(order) /\ at' = at + 1 /\ i' = 1 /\ pl' = Zero /\ pr' = Zero
             /\ UNCHANGED <<X, y, K, B, kind, sub, order, left, offered, phase>>
Next == Bin \/ BinsDone \/ RouteRow \/ RouteNext
Spec == Init /\ [][Next]_vars
LRows(q) == LeftRows(Rows, X, 1, RuleUpTo(q))
InvOffered == \A o \in offered : o.l = Stat(LRows(o.q), K, y, B) /\ o.r = Stat(Rows \ LRows(o.q), K, y, B)
InvComplete == phase = "route" => {o.q : o \in offered} = {q \in 1..(Len(order) - 1) : Cardinality(LRows(q)) >= MinLeaf /\ Cardinality(Rows \ LRows(q)) >= MinLeaf}
InvProposed == (phase = "route" /\ i > N) => /\ pl = Stat(LRows(at), K, y, B) /\ pr = Stat(Rows \ LRows(at), K, y, B)
                                            /\ AddStat(pl, pr) = Node
                                            /\ \A o \in offered : o.q = at => o.l = pl /\ o.r = pr
=============================================================================
