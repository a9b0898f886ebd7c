----------------------------- MODULE GreedyFree -----------------------------
(* Model checking the run against every environment: any candidate may be   *)
(* the best, the refined cost anything, redundancy anything.                *)
EXTENDS Greedy
CONSTANTS MaxFn, MaxCost
Costs == (0..MaxCost) \cup {Nan}
Init == \E c \in [strategy : {"pick-one", "pick-two"}, max : 0..MaxFn, thr : 0..2, start : 0..MaxCost] : Begin(c)
Env == \E b \in {1, NumS + 1}, rc \in Costs, red \in BOOLEAN : Step(b, rc, red, ~(Dist(rc, best) >= cfg.thr))
Next == Env \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
(* the choice among candidates *)
ASSUME \A n \in 1..4 : \A costs \in [1..n -> {-2, 0, 1, Nan, Inf}] : BestIsMinimal(costs)
(* the log is not part of the behaviour: leave it out of the state identity *)
View == <<cfg, ns, np, fexp, redum, prev, best, small, Len(hist), pc>>
=============================================================================
