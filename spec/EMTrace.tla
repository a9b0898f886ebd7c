------------------------------ MODULE EMTrace ------------------------------
(* Validates recorded fixed-point iterations against what EM proves.        *)
(* A trace: mode, norm, start [sum], then one event per iteration [sum, posc,      *)
(* pose, kl]; sum says whether the coefficients carry the prescribed norm,  *)
(* kl is an integer preserving the order of the divergences.                *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES t, k, carried, kl, ok
vars == <<t, k, carried, kl, ok>>
File == JsonDeserialize("traces.json")
Init == /\ t \in {File[i] : i \in 1..Len(File)}
        /\ k = 0 /\ carried = t.sum /\ kl = t.kl0 /\ ok = TRUE
Ev == t.ev[k + 1]
Legal == /\ t.mode # "exps" => Ev.sum /\ Ev.posc
         /\ t.mode # "coeffs" => Ev.pose
         /\ t.mode = "exps" => Ev.csame
         /\ t.mode = "coeffs" => Ev.esame /\ (carried => Ev.kl <= kl)
         \* the functions of a normalized model are exp(p log a - a r^2) up to a constant with p the pre-factor; with the shares h
         \* of the density they have, sum h (p log a - a r^2) is largest at a = p sum h / sum h r^2, because log x <= x - 1:
         \* the update of the exponents is as little able to increase the divergence as that of the coefficients
         /\ t.norm /\ t.mode # "coeffs" => (t.mode = "exps" \/ carried => Ev.kl <= kl)
Next == /\ ok /\ k < Len(t.ev)
        /\ ok' = Legal /\ k' = k + 1
        /\ carried' = Ev.sum /\ kl' = Ev.kl /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Emit == (~ok \/ k = Len(t.ev)) => PrintT("@@" \o ToJson([id |-> t.id, ok |-> ok, at |-> k]))
=============================================================================
