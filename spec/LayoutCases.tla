---------------------------- MODULE LayoutCases ----------------------------
(* The parameter layout alone (Gauss!CenterOf, TypeOf, Prefactor) of bases  *)
(* too large to expand into expressions, read from layouts.json.            *)
EXTENDS Gauss, Json
VARIABLE b
In == JsonDeserialize("layouts.json")
Init == b \in {In[i] : i \in 1..Len(In)}
Next == FALSE /\ UNCHANGED b
Last == CenterOf(b, NBasis(b)) = CHOOSE k \in 1..Len(b) : /\ b[k][1] + b[k][2] > 0
                                                         /\ \A j \in k+1..Len(b) : b[j][1] + b[j][2] = 0
Monotone == \A i \in 1..NBasis(b)-1 : CenterOf(b, i) <= CenterOf(b, i+1)
Emit == LET n == NBasis(b) IN
  PrintT("@@" \o ToJson([b |-> b, n |-> n, center |-> [i \in 1..n |-> CenterOf(b, i)],
                         pref |-> [i \in 1..n |-> Prefactor(TypeOf(b, i))]]))
=============================================================================
