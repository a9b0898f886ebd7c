------------------------------ MODULE FpiLoop ------------------------------
(* The control state machine of the fixed-point run.  Numbers that the loop *)
(* compares (changes, divergences, thresholds) are abstracted to integers   *)
(* that keep their order; Inf is larger than all of them and NaN (Nan)      *)
(* compares false with everything.                                          *)
(* One instance: dc[k], de[k] the largest change of a coefficient and of an *)
(* exponent in iteration k, dd[k] the change of the divergence between the  *)
(* iterations k-1 and k (k >= 2), fin[k] whether the parameters after       *)
(* iteration k are finite (index k+1, since index 1 is the start), und[k]   *)
(* whether the divergence itself is undefined after iteration k.            *)
EXTENDS Integers, Sequences, TLC

Inf == 1000000
Nan == -1
Gt(a, b) == IF a = Nan \/ b = Nan THEN FALSE ELSE a > b

VARIABLES inst,     \* the instance: changes, thresholds and the limit
          k,        \* iterations done
          rec,      \* iterations recorded, in order
          pc        \* "loop" or "done"
vars == <<inst, k, rec, pc>>

At(s, i) == IF i = 0 THEN Inf ELSE s[i]
DD(i) == IF i < 2 THEN Inf ELSE inst.dd[i]
Und(i) == i > 0 /\ inst.und[i]
ParamsMove(i) == Gt(At(inst.de, i), inst.eth) \/ Gt(At(inst.dc, i), inst.cth)
DivMoves(i) == Gt(DD(i), inst.dth)
Continue(i) == ParamsMove(i) /\ DivMoves(i) /\ i < inst.maxiter

Iterate == /\ pc = "loop" /\ Continue(k)
           /\ k' = k + 1
           /\ rec' = Append(rec, k + 1)
           /\ UNCHANGED <<inst, pc>>
Stop    == /\ pc = "loop" /\ ~Continue(k)
           /\ pc' = "done" /\ UNCHANGED <<inst, k, rec>>
Next == Iterate \/ Stop

Success == /\ ~(k = inst.maxiter /\ DivMoves(k))
           /\ DD(k) # Nan
           /\ ~Und(k)
           /\ inst.fin[k + 1]

(* -- what a user relies on ----------------------------------------------- *)
Bounded == k <= inst.maxiter
Recorded == rec = [i \in 1..k |-> i]
Truthful == pc = "done" =>
   /\ Success => inst.fin[k + 1] /\ DD(k) # Nan /\ ~Und(k)
   \* nothing but the limit stopped it and the divergence still moved: not a success
   /\ (k = inst.maxiter /\ Gt(DD(k), inst.dth)) => ~Success
   \* converged divergence, finite parameters: a success
   /\ (DD(k) # Nan /\ inst.fin[k+1] /\ ~Und(k) /\ ~DivMoves(k)) => Success
   \* a run that never moved twice can only succeed because nothing moved
   /\ (Success /\ k < 2 /\ inst.dth < Inf) => (k < inst.maxiter /\ ~ParamsMove(k))
StopsForAReason == pc = "done" => \/ k = inst.maxiter \/ ~DivMoves(k) \/ ~ParamsMove(k)
NeverPastConvergence == \A i \in 1..k-1 : Continue(i)
Terminates == <>(pc = "done")
=============================================================================
