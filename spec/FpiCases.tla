------------------------------ MODULE FpiCases ------------------------------
(* Mode "all": every instance over a small value set (model checking).      *)
(* Mode "file": the instances recorded from the real code, whose predicted  *)
(* outcome is printed.                                                      *)
EXTENDS FpiLoop, Json
CONSTANTS Mode, MaxIt
Vals == {0, 2, Nan}
(* an undefined divergence makes its change, and the next one, undefined *)
UndOk(x) == \A i \in 2..MaxIt : (x.und[i] \/ x.und[i - 1]) => x.dd[i] = Nan
All == [id : {0}, dc : [1..MaxIt -> Vals], de : [1..MaxIt -> {0, 2}], dd : [1..MaxIt -> Vals], und : [1..MaxIt -> BOOLEAN],
        fin : {[i \in 1..MaxIt+1 |-> i < j] : j \in {1, MaxIt+1, MaxIt+2}},
        cth : {0, 2}, eth : {0, 2}, dth : {0, 2}, maxiter : 0..MaxIt]
File == IF Mode = "file" THEN JsonDeserialize("inst.json") ELSE <<>>
Init == /\ inst \in (IF Mode = "all" THEN {x \in All : UndOk(x)} ELSE {File[i] : i \in 1..Len(File)})
        /\ k = 0 /\ rec = <<>> /\ pc = "loop"
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == (Mode = "file" /\ pc = "done") => PrintT("@@" \o ToJson([id |-> inst.id, niter |-> k, success |-> Success]))
=============================================================================
