------------------------------- MODULE Greedy -------------------------------
(* The greedy run.  The optimizer is the environment: it answers every      *)
(* candidate with a cost, the refined best candidate with a cost, and may   *)
(* return functions with redundant (too close) exponents.                   *)
(* Costs are integers; Nan is an undefined cost, Inf an infinite one.       *)
EXTENDS Integers, Sequences, TLC

Inf == 1000000000
Nan == -1000000000
Less(a, b) == a # Nan /\ b # Nan /\ a < b
Leq(a, b) == a # Nan /\ b # Nan /\ a <= b
Dist(a, b) == IF a = Inf \/ b = Inf THEN Inf ELSE IF a < b THEN b - a ELSE a - b

Increase(strategy) == IF strategy = "pick-two" THEN 2 ELSE 1
Choices(strategy, n) ==
  CASE strategy = "pick-one" -> n + 1
    [] strategy = "pick-two" -> ((n + 1) * (n + 4)) \div 2
    [] strategy = "pick-two-lose-one" -> (n + 2) * (((n + 1) * (n + 4)) \div 2)
(* the first of the lowest defined costs; the first candidate if none is finite *)
Best(costs) ==
  LET D == {i \in 1..Len(costs) : costs[i] # Nan /\ costs[i] < Inf} IN
  IF D = {} THEN 1
  ELSE CHOOSE i \in D : \A j \in D : costs[i] < costs[j] \/ (costs[i] = costs[j] /\ i <= j)
BestIsMinimal(costs) ==
  LET b == Best(costs) IN
  /\ \A j \in 1..Len(costs) : costs[j] # Nan /\ costs[j] < Inf => ~Less(costs[j], costs[b])
  /\ \A j \in 1..b-1 : ~(costs[b] # Nan /\ costs[b] < Inf) \/ costs[j] # costs[b]

VARIABLES cfg,      \* [strategy, max, thr, start (cost of the single function), ...]
          ns, np,   \* counts
          fexp,     \* the factor is the given one times 2^fexp
          redum,    \* consecutive rejected steps
          prev, best,
          small,    \* the last accepted change was below the threshold
          hist,     \* accepted entries [ns, np, val]
          log,      \* growth steps
          pc
vars == <<cfg, ns, np, fexp, redum, prev, best, small, hist, log, pc>>

Inc == Increase(cfg.strategy)
Total == ns + np
NumS == Choices(cfg.strategy, ns)
NumP == IF np = 0 THEN 3 ELSE Choices(cfg.strategy, np)

CanGrow == Total + Inc <= cfg.max
Begin(c) == /\ cfg = c
            /\ ns = 1 /\ np = 0 /\ fexp = 0 /\ redum = 0
            /\ prev = Inf /\ best = c.start
            /\ small = (~(Dist(Inf, c.start) >= c.thr))
            /\ hist = << [ns |-> 1, np |-> 0, val |-> c.start] >>
            /\ log = <<>> /\ pc = "loop"
Going == CanGrow /\ redum < 5 /\ ~small

(* the environment answers: b is the chosen candidate, rc the refined cost, *)
(* red redundancy, sm whether the change would be below the threshold       *)
Step(b, rc, red, sm) ==
  LET isS == b <= NumS
      ns1 == IF isS THEN ns + Inc ELSE ns
      np1 == IF isS THEN np ELSE np + Inc
      bad == (red /\ (ns1 >= 2 \/ np1 >= 2)) \/ ~Leq(rc, best)
  IN /\ pc = "loop" /\ Going
     /\ IF bad
        THEN /\ redum' = redum + 1 /\ fexp' = fexp + 1
             /\ UNCHANGED <<ns, np, prev, best, small, hist>>
        ELSE /\ ns' = ns1 /\ np' = np1 /\ redum' = 0 /\ fexp' = 0
             /\ prev' = best /\ best' = rc /\ small' = sm
             /\ hist' = Append(hist, [ns |-> ns1, np |-> np1, val |-> rc])
     /\ log' = Append(log, [ns |-> ns, np |-> np, fexp |-> fexp, nums |-> NumS, nump |-> NumP, chosen |-> b,
                            isS |-> isS, accepted |-> ~bad, entry |-> Len(hist)])
     /\ UNCHANGED <<cfg, pc>>
Stop == /\ pc = "loop" /\ ~Going /\ pc' = "done"
        /\ UNCHANGED <<cfg, ns, np, fexp, redum, prev, best, small, hist, log>>

Success == redum < 5
TrueReasons == (IF redum = 5 THEN {"rejected"} ELSE {})
          \cup (IF small THEN {"converged"} ELSE {})
          \cup (IF ~CanGrow THEN {"maximum"} ELSE {})

(* -- what a user relies on ------------------------------------------------ *)
NeverWorse == \A i \in 1..Len(hist)-1 : Leq(hist[i+1].val, hist[i].val)
CountsMatch == /\ hist[Len(hist)].ns = ns /\ hist[Len(hist)].np = np /\ hist[Len(hist)].val = best
               /\ \A i \in 1..Len(hist)-1 : hist[i+1].ns + hist[i+1].np = hist[i].ns + hist[i].np + Inc
Bounded == Total <= (IF cfg.max < 1 THEN 1 ELSE cfg.max)
FactorIsRejections == fexp = redum /\ redum <= 5
StepsBounded == Len(log) <= 5 * (Len(hist) + 1)
TruthfulExit == pc = "done" => TrueReasons # {} /\ (Success <=> ~("rejected" \in TrueReasons))
OneEntryPerAcceptance == Len(hist) = 1 + Len(SelectSeq(log, LAMBDA r : r.accepted))
=============================================================================
