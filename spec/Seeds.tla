------------------------------- MODULE Seeds --------------------------------
(* Runs next to one another in one process. A run copies its data, seeds a generator and then makes steps; a step     *)
(* draws from the generator of the run and depends on the data of the run and on what the run did before. Runs can    *)
(* start, advance and go away in any order, and callers may overwrite their tables once a run has taken its data.     *)
(* Shared = TRUE is the design in which all runs draw from one generator that every start seeds anew; Borrow = TRUE    *)
(* the one in which a run reads the caller's table at every step. Neither keeps InvSame (checked, as a test of it).    *)
EXTENDS SeedsObs, Json
CONSTANTS Runs, Keys, MaxOps, MaxSteps, Shared, Borrow, Emit
VARIABLES run, gen, caller, table, ok, hist
sv == <<run, gen, caller, table, ok>>
\* key k: its table holds k at first, its seed is k
Off == [key |-> 0, pos |-> 0, g |-> <<0, 0>>, data |-> 0, acc |-> <<>>]
Init == run = [r \in Runs |-> Off] /\ gen = <<0, 0>> /\ caller = [k \in Keys |-> k] /\ table = <<>> /\ ok = TRUE /\ hist = <<>>
Log(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)
Start == \E r \in Runs, k \in Keys :
  /\ run[r].key = 0
  /\ run' = [run EXCEPT ![r] = [key |-> k, pos |-> 0, g |-> <<k, 0>>, data |-> k, acc |-> <<>>]]
  /\ gen' = <<k, 0>> /\ caller' = [caller EXCEPT ![k] = k] /\ UNCHANGED <<table, ok>> /\ Log([op |-> "start", r |-> r, k |-> k])
Step == \E r \in Runs :
  /\ run[r].key # 0 /\ run[r].pos < MaxSteps
  /\ LET g == IF Shared THEN gen ELSE run[r].g
         d == IF Borrow THEN caller[run[r].key] ELSE run[r].data
         acc == Append(run[r].acc, <<g, d>>)
     IN /\ run' = [run EXCEPT ![r].pos = @ + 1, ![r].g = <<@[1], @[2] + 1>>, ![r].acc = acc]
        /\ gen' = <<gen[1], gen[2] + 1>>
        /\ ok' = (ok /\ Agrees(table, run[r].key, run[r].pos + 1, acc))
        /\ table' = Learn(table, run[r].key, run[r].pos + 1, acc)
  /\ UNCHANGED caller /\ Log([op |-> "step", r |-> r])
Drop == \E r \in Runs : run[r].key # 0 /\ run' = [run EXCEPT ![r] = Off] /\ UNCHANGED <<gen, caller, table, ok>> /\ Log([op |-> "drop", r |-> r])
Overwrite == \E k \in Keys : caller[k] # 0 /\ (\E r \in Runs : run[r].key = k) /\ caller' = [caller EXCEPT ![k] = 0]
             /\ UNCHANGED <<run, gen, table, ok>> /\ Log([op |-> "overwrite", k |-> k])
Next == Start \/ Step \/ Drop \/ Overwrite
Spec == Init /\ [][Next]_<<sv, hist>>
InvSame == ok
\* what a run has produced is what its key says, and nothing else
InvKnown == \A r \in Runs : run[r].key # 0 /\ run[r].pos > 0 => Row(table, run[r].key)[run[r].pos] = run[r].acc
EmitTransition == Emit => PrintT(<<"BEH", ToJson(hist')>>)
=============================================================================
