------------------------------- MODULE Session -------------------------------
(* A session: public operations on shared objects in any order.  The only   *)
(* state an operation may depend on is the size of the shared atomic model, *)
(* which only "resizeA"/"resizeB" change (and a molecular model, grids,     *)
(* measures and loaded atoms have none).  So the result of an operation is  *)
(* determined by <<operation, size>>, and no operation changes its inputs.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ops, Stateful, MaxLen
(* Stateful \subseteq Ops: operations whose result depends on the model size *)
VARIABLES size, log
vars == <<size, log>>
Init == size = "A" /\ log = <<>>
ResultOf(op) == IF op \in Stateful THEN op \o "/" \o size ELSE op
Do(op) == /\ Len(log) < MaxLen
          /\ size' = CASE op = "resizeA" -> "A" [] op = "resizeB" -> "B" [] OTHER -> size
          /\ log' = Append(log, [op |-> op, res |-> ResultOf(op)])
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
(* purity: whatever came before, equal operations in equal sizes give equal results *)
SizeAt(i) == LET R == {j \in 1..i-1 : log[j].op \in {"resizeA", "resizeB"}} IN
  IF R = {} THEN "A" ELSE LET m == CHOOSE x \in R : \A y \in R : y <= x IN
  IF log[m].op = "resizeA" THEN "A" ELSE "B"
Pure == \A i, j \in 1..Len(log) : log[i].op = log[j].op /\ SizeAt(i) = SizeAt(j) => log[i].res = log[j].res
Emit == Len(log) = MaxLen => PrintT("@@" \o ToJson([h |-> [i \in 1..MaxLen |-> log[i].res]]))
=============================================================================
