------------------------------ MODULE GreedyRuns ------------------------------
(* Several runs of one greedy object.  The search state kept on the object   *)
(* (numbers of functions, number of stored errors) and the size of its model *)
(* are left in any state by runs that complete, by runs interrupted at any   *)
(* optimization and by resizing the model; a rejected call changes nothing.  *)
(* A run begins by resetting all of it, so what it returns is a function of  *)
(* its settings only.                                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Settings, MaxLen, MaxFn
VARIABLES ns, np, errs, model, results, log
vars == <<ns, np, errs, model, results, log>>
Counts == {c \in (0..MaxFn) \X (0..MaxFn) : c[1] + c[2] >= 1 /\ c[1] + c[2] <= MaxFn}
Fresh == [ns |-> 1, np |-> 0, errs |-> 0, model |-> <<1, 0>>]
Init == ns = 1 /\ np = 0 /\ errs = 0 /\ model = <<1, 0>> /\ results = <<>> /\ log = <<>>
More == Len(log) < MaxLen
(* the state in which the search proper starts *)
Begin == [ns |-> 1, np |-> 0, errs |-> 0, model |-> <<1, 0>>]
RunDone(s) == /\ More
              /\ \E c \in Counts : /\ c[1] >= 1
                                   /\ ns' = c[1] /\ np' = c[2] /\ errs' = c[1] + c[2]
                                   (* a rejected last step leaves the model at the accepted size *)
                                   /\ model' = c
              /\ results' = Append(results, <<s, Begin>>)
              /\ log' = Append(log, "run" \o s)
RunInterrupted(s) == /\ More
                     /\ \E c, m \in Counts : /\ c[1] >= 1
                                             /\ ns' = c[1] /\ np' = c[2] /\ errs' = c[1] + c[2] /\ model' = m
                     /\ UNCHANGED results
                     /\ log' = Append(log, "crash" \o s)
Rejected == More /\ log' = Append(log, "reject") /\ UNCHANGED <<ns, np, errs, model, results>>
Resize == More /\ (\E m \in Counts : model' = m) /\ log' = Append(log, "resize") /\ UNCHANGED <<ns, np, errs, results>>
(* the caller overwrites the arrays it was given: they are its own *)
Scribble == More /\ results # <<>> /\ log' = Append(log, "scribble") /\ UNCHANGED <<ns, np, errs, model, results>>
Next == (\E s \in Settings : RunDone(s) \/ RunInterrupted(s)) \/ Rejected \/ Resize \/ Scribble
Spec == Init /\ [][Next]_vars
Independent == \A i \in 1..Len(results) : results[i][2] = Fresh
(* results of earlier runs are never changed by later operations *)
Kept == [][/\ Len(results') >= Len(results)
           /\ \A i \in 1..Len(results) : results'[i] = results[i]]_vars
(* histories without their environments, one per log *)
HView == <<log, Len(results), IF Len(log) = MaxLen THEN <<>> ELSE <<ns, np, model>>>>
IsRun(x) == \E s \in Settings : x = "run" \o s
Emit == Len(log) = MaxLen /\ IsRun(log[MaxLen]) => PrintT("@@" \o ToJson([h |-> log]))
=============================================================================
