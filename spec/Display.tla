------------------------------ MODULE Display -------------------------------
(* What a run prints.  A run is a sequence of steps, each accepted (its     *)
(* parameters become the current entry of the history) or, for the greedy   *)
(* search only, rejected.  Entry 0 are the parameters the run starts from;  *)
(* the greedy search shows them too, the others show what they recorded.    *)
(* A line shows the current entry and the change to the entry before it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxSteps
VARIABLES run, k, hist, out, pc
vars == <<run, k, hist, out, pc>>

Methods == {"fpi", "slsqp", "trust-constr", "greedy"}
HasHeader(m) == m # "trust-constr"         \* the optimizer's own table surrounds its lines
ShowsStart(m) == m = "greedy"
None == -1
Last(s) == s[Len(s)]

(* the search gives up after five rejections in a row *)
GivesUp(s, n) == n >= 5 /\ \A i \in (n - 4)..n : ~s[i]
Runs(m) == {s \in UNION {[1..n -> BOOLEAN] : n \in 0..MaxSteps} :
              /\ m # "greedy" => \A i \in 1..Len(s) : s[i]
              /\ \A i \in 1..(Len(s) - 1) : ~GivesUp(s, i)}
File == JsonDeserialize("runs.json")
Cases == IF Mode = "file" THEN {File[i] : i \in 1..Len(File)}
         ELSE UNION {[id : {0}, method : {m}, disp : BOOLEAN, steps : Runs(m)] : m \in Methods}

Row(step, h) == [line |-> "row", step |-> step, entry |-> Last(h), before |-> IF Len(h) > 1 THEN h[Len(h) - 1] ELSE None]
Line(l) == [line |-> l, step |-> None, entry |-> None, before |-> None]
Put(lines) == out' = IF run.disp THEN out \o lines ELSE out

Init == run \in Cases /\ k = 0 /\ hist = <<0>> /\ out = <<>> /\ pc = "begin"
Begin == /\ pc = "begin" /\ pc' = "run"
         /\ Put((IF HasHeader(run.method) THEN <<Line("header")>> ELSE <<>>)
                  \o (IF ShowsStart(run.method) THEN <<Row(0, hist)>> ELSE <<>>))
         /\ UNCHANGED <<run, k, hist>>
Step == /\ pc = "run" /\ k < Len(run.steps)
        /\ k' = k + 1
        /\ LET h == IF run.steps[k + 1] THEN Append(hist, k + 1) ELSE hist
           IN hist' = h /\ Put(<<Row(k + 1, h)>>)
        /\ UNCHANGED <<run, pc>>
End == /\ pc = "run" /\ k = Len(run.steps)
       /\ pc' = "done" /\ Put(<<[Line("footer") EXCEPT !.entry = Last(hist)]>>)
       /\ UNCHANGED <<run, k, hist>>
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Rows == SelectSeq(out, LAMBDA l : l.line = "row")
Done == pc = "done"
Shown == LET r == Rows IN {r[i].entry : i \in 1..Len(r)}
Accepted == SelectSeq([i \in 1..k |-> i], LAMBDA i : run.steps[i])

Silent == ~run.disp => out = <<>>
(* the history does not depend on whether it is shown *)
HistoryIsOutcomes == hist = <<0>> \o Accepted
OneRowPerStep == run.disp /\ pc # "begin" => Len(Rows) = k + (IF ShowsStart(run.method) THEN 1 ELSE 0)
RowIsCurrent == LET r == Rows IN run.disp /\ r # <<>> => Last(r).entry = Last(hist)
InOrder == LET r == Rows IN \A i \in 1..(Len(r) - 1) : r[i].step < r[i + 1].step /\ r[i].entry <= r[i + 1].entry
(* nothing the run recorded stays unshown, nothing else is shown *)
Complete == run.disp /\ pc # "begin" =>
              Shown = (IF ShowsStart(run.method) THEN {hist[i] : i \in 1..Len(hist)} ELSE {hist[i] : i \in 2..Len(hist)})
ChangeIsReal == LET r == Rows IN \A i \in 1..Len(r) : r[i].before < r[i].entry /\ (r[i].before = None => r[i].entry = 0)
Framed == Done /\ run.disp => /\ Last(out).line = "footer" /\ Last(out).entry = Last(hist)
                              /\ Len(out) = Len(Rows) + 1 + (IF HasHeader(run.method) THEN 1 ELSE 0)
                              /\ HasHeader(run.method) => out[1].line = "header"
Finishes == <>Done
Emit == Done => PrintT("@@" \o ToJson([id |-> run.id, lines |-> out, hist |-> hist]))
=============================================================================
