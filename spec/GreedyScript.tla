---------------------------- MODULE GreedyScript ----------------------------
(* The run against scripted environments (generated by the harness, or      *)
(* recorded from real optimizations), printing the whole behaviour.         *)
EXTENDS Greedy, Json
File == JsonDeserialize("scripts.json")
Init == \E i \in 1..Len(File) : Begin(File[i])
Sc == cfg.steps[(Len(log) % Len(cfg.steps)) + 1]
Lc == IF Len(Sc.lc) >= NumS + NumP THEN SubSeq(Sc.lc, 1, NumS + NumP)
      ELSE [i \in 1..NumS + NumP |-> Sc.lc[((i - 1) % Len(Sc.lc)) + 1]]
Env == /\ Len(log) < cfg.steplimit
       /\ Step(Best(Lc), Sc.rc, Sc.red, IF cfg.observed THEN Sc.small ELSE ~(Dist(Sc.rc, best) >= cfg.thr))
Next == Env \/ Stop
Spec == Init /\ [][Next]_vars
Emit == pc = "done" => PrintT("@@" \o ToJson([id |-> cfg.id, ns |-> ns, np |-> np, best |-> best, success |-> Success,
          reasons |-> TrueReasons, hist |-> hist, log |-> log, fexp |-> fexp, redum |-> redum]))
=============================================================================
