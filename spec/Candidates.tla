----------------------------- MODULE Candidates -----------------------------
(* The guesses a growth step starts from, symbolically.  Functions are      *)
(* pairs [c |-> expr, a |-> expr]; a list of functions is kept in the order *)
(* of positions.                                                            *)
EXTENDS Expr, FiniteSets, TLC

Fill == Var("fill")
Factor == Var("factor")
Given(n) == [i \in 1..n |-> [c |-> Var("c" \o ToString(i)), a |-> Var("a" \o ToString(i))]]

InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))   \* i functions stay in front
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* the new exponent at position i (i old functions in front of it) *)
NewExp(s, i) == IF i = 0 THEN Div(s[1].a, Factor)
                ELSE IF i = Len(s) THEN Mul(s[i].a, Factor)
                ELSE Mul(Add(s[i].a, s[i+1].a), Num(1, 2))
Grow(s, i) == InsertAt(s, i, [c |-> Fill, a |-> NewExp(s, i)])

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

One1(s) == [k \in 1..Len(s)+1 |-> Grow(s, k - 1)]
(* twice, the second position not before the first: no pair of positions repeats *)
Two(s) == Flatten([k \in 1..Len(s)+1 |-> LET i == k - 1  t == Grow(s, i) IN
              [m \in 1..(Len(t) + 1 - i) |-> Grow(t, i + m - 1)]])
LoseOne(s) == LET two == Two(s)  m == Len(s) + 2 IN
  [x \in 1..Len(two)*m |-> RemoveAt(two[((x - 1) \div m) + 1], ((x - 1) % m) + 1)]
List(strategy, s) == CASE strategy = "pick-one" -> One1(s) [] strategy = "pick-two" -> Two(s)
                       [] strategy = "pick-two-lose-one" -> LoseOne(s)
Increase(strategy) == IF strategy = "pick-two" THEN 2 ELSE 1
Strategies == {"pick-one", "pick-two", "pick-two-lose-one"}

(* -- structure ------------------------------------------------------------ *)
Keeps(s, t) == \E f \in [1..Len(s) -> 1..Len(t)] :
                 /\ \A i, j \in 1..Len(s) : i < j => f[i] < f[j]
                 /\ \A i \in 1..Len(s) : t[f[i]] = s[i]
=============================================================================
