------------------------------ MODULE RoutingMC -----------------------------
(* Enumerates every tree up to a depth over a set of rules and every row over a grid of values (below,     *)
(* at and above thresholds, missing, negative, fractional, listed and unseen categories) and checks that   *)
(* routing is total and exclusive: a row satisfies the conditions on the path to exactly one leaf.         *)
(* With Emit each tree is printed, so that the real code is run on the complete grid too.                  *)
EXTENDS Forest, Json
CONSTANTS MaxDepth, Rules, Grid0, Grid1, Emit
VARIABLE T, open
\* a tree is grown by deciding, position by position, whether to split; `open` are undecided leaves
Init == T = Stump(<<1>>) /\ open = {1}
First(S) == CHOOSE h \in S : \A g \in S : h <= g
Grow == open # {} /\ LET h == First(open) IN Depth(h) < MaxDepth /\ \E r \in Rules :
          T' = Expand(T, h, r, <<2*h>>, <<2*h+1>>) /\ open' = (open \ {h}) \cup {2*h, 2*h+1}
Stop == open # {} /\ T' = T /\ open' = open \ {First(open)}
Spec == Init /\ [][Grow \/ Stop]_<<T, open>>
Rows == {<<a, b>> : a \in Grid0, b \in Grid1}
RECURSIVE OnPath(_, _, _)
OnPath(t, row, h) == IF h = 1 THEN TRUE
   ELSE LET p == h \div 2 IN (GoesLeft(t[p], row[t[p].f + 1]) <=> (h = 2*p)) /\ OnPath(t, row, p)
InvRoute == open = {} => \A row \in Rows : {h \in Leaves(T) : OnPath(T, row, h)} = {Route(T, row)}
InvMissing == open = {} => Route(T, <<NA, NA>>) \in {2^q : q \in 0..MaxDepth}     \* missing values go left throughout
TreeJson == [h \in DOMAIN T |-> [k |-> T[h].k, f |-> T[h].f, t |-> T[h].t, c |-> T[h].c]]
InvEmit == (Emit /\ open = {}) => PrintT(<<"BEH", ToJson({<<h, TreeJson[h]>> : h \in DOMAIN T})>>)
MCRules == {Num(0, 0), Num(0, SC), Cat(1, {0, 2}), Cat(1, {1})}
MCGrid0 == {-SC, 0, 1, SC - 1, SC, SC + 1, 3 * SC, NA}
MCGrid1 == {-1, -SC, 0, SC \div 2, SC, SC + 512, 2 * SC, 3 * SC, NA}
=============================================================================
