------------------------------ MODULE SlaterFiles ------------------------------
(* Files recorded as words (files.json), read by the machine of Slater.tla.     *)
EXTENDS Slater, Json
VARIABLES f, i, s
vars == <<f, i, s>>
Files == JsonDeserialize("files.json")
Init == f \in 1..Len(Files) /\ i = 1 /\ s = Start
Next == /\ s.pc \notin {"end", "error"} /\ i <= Len(Files[f].lines)
        /\ s' = Step(s, Files[f].lines[i], Files[f].heavy) /\ i' = i + 1 /\ f' = f
Spec == Init /\ [][Next]_vars
Done == i > Len(Files[f].lines) \/ s.pc \in {"end", "error"}
Conf == Files[f].conf
Emit == Done => PrintT("@@" \o ToJson([id |-> Files[f].id, pc |-> s.pc, d |-> s.d, shapes |-> s.pc \in {"end", "rows"} /\ Shapes(s.d, Files[f].heavy),
            wf |-> WellFormed(Conf), electrons |-> Electrons(Conf),
            occ |-> [k \in 1..Len(s.d.orbitals) |-> Occ(Conf, s.d.orbitals[k])]]))
=============================================================================
