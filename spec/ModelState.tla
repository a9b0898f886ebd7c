----------------------------- MODULE ModelState -----------------------------
(* The life of an atomic model object: resizing, rejected resizing,         *)
(* evaluation and rejected evaluation.  hist records the calls made.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxPer, Depth
VARIABLES ns, np, hist, first

vars == <<ns, np, hist, first>>
Lay == (0..MaxPer) \X (0..MaxPer)      \* a model can be emptied and filled again
Starts == {<<1, 0>>, <<0, 1>>, <<2, 1>>}

Init == /\ first \in Starts
        /\ ns = first[1] /\ np = first[2] /\ hist = <<>>

Log(op, a, b, acc) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, ok |-> acc, ns |-> ns', np |-> np'])

Resize(l) == ns' = l[1] /\ np' = l[2] /\ Log("resize", l[1], l[2], TRUE)
(* a size that is not an integer is rejected; which = the offending argument *)
ResizeBad(which) == UNCHANGED <<ns, np>> /\ Log("badresize", which, 0, FALSE)
Evaluate(deriv) == UNCHANGED <<ns, np>> /\ Log("evaluate", deriv, 0, TRUE)
EvaluateBad(delta) == ns + np + delta >= 0 /\ UNCHANGED <<ns, np>> /\ Log("badevaluate", delta, 0, FALSE)

Next == /\ Len(hist) < Depth
        /\ UNCHANGED first
        /\ \/ \E l \in Lay : Resize(l)
           \/ \E w \in {1, 2} : ResizeBad(w)
           \/ \E d \in {0, 1} : Evaluate(d)
           \/ \E d \in {-1, 1} : EvaluateBad(d)

Positive == ns >= 0 /\ np >= 0
(* current size = the last accepted resize, else the initial one *)
LastResize ==
  LET I == {i \in 1..Len(hist) : hist[i].op = "resize"}
  IN  IF I = {} THEN <<ns, np>> = first
      ELSE LET m == CHOOSE i \in I : \A j \in I : j <= i IN hist[m].a = ns /\ hist[m].b = np
RejectedChangesNothing ==
  [][\A i \in 1..Len(hist') : ~hist'[i].ok /\ i = Len(hist') => ns' = ns /\ np' = np]_vars

Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([first |-> first, hist |-> hist]))
=============================================================================
