------------------------------ MODULE CandCases ------------------------------
EXTENDS Candidates, Json
CONSTANTS MaxN, More, MoreOf      \* further sizes, and the strategies they are for
VARIABLE cs
Init == cs \in [n : 1..MaxN, strategy : Strategies] \union [n : More, strategy : MoreOf]
Next == FALSE /\ UNCHANGED cs
S == Given(cs.n)
L == List(cs.strategy, S)
Counts == Len(L) = CASE cs.strategy = "pick-one" -> cs.n + 1
                     [] cs.strategy = "pick-two" -> ((cs.n + 1) * (cs.n + 4)) \div 2
                     [] cs.strategy = "pick-two-lose-one" -> (cs.n + 2) * (((cs.n + 1) * (cs.n + 4)) \div 2)
Sizes == LET l == L IN \A k \in 1..Len(l) : Len(l[k]) = cs.n + Increase(cs.strategy)
OldKept == cs.strategy # "pick-two-lose-one" /\ cs.n <= 3 => LET l == L IN \A k \in 1..Len(l) : Keeps(S, l[k])
NoRepeat == cs.strategy = "pick-one" => LET l == L IN \A i, j \in 1..Len(l) : i # j => l[i] # l[j]
Emit == PrintT("@@" \o ToJson([n |-> cs.n, strategy |-> cs.strategy, list |-> L]))
=============================================================================
