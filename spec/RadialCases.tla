----------------------------- MODULE RadialCases -----------------------------
EXTENDS Grids, TLC, Json
CONSTANTS MaxN, MaxC, Extra
VARIABLE cs
XX == IF Extra THEN JsonDeserialize("extra.json") ELSE <<>>
Init == cs \in ({[kind |-> "uniform", n |-> n, m |-> 0, o |-> TRUE] : n \in 1..MaxN}
          \union {[kind |-> "clenshaw", n |-> n, m |-> m, o |-> o] : n \in 0..MaxC, m \in 0..MaxC, o \in BOOLEAN}
          \union {XX[i] : i \in 1..Len(XX)})
Next == FALSE /\ UNCHANGED cs
Pts == IF cs.kind = "uniform" THEN UniformPoints(cs.n) ELSE ClenshawPoints(cs.m, cs.n, cs.o)
CountOK == Len(Pts) = cs.n + cs.m
OriginIffRequested == cs.kind = "clenshaw" =>
   ((\E i \in 1..Len(Pts) : Pts[i] = Zero) <=> (cs.o /\ cs.m > 0))
Emit == PrintT("@@" \o ToJson([c |-> cs, pts |-> Pts]))
(* the same points by their position, for grids too long to enumerate *)
ASSUME PrintT("@@" \o ToJson([forms |->
  [uniform |-> Add(Lo, Mul(Div(Var("i"), Sub(Var("n"), One)), Sub(Hi, Lo))),
   core |-> Div(Sub(One, Cos(Mul(Div(Var("i"), Mul(K(2), Var("m"))), Pi))), Mul(K(2), Z)),
   diffuse |-> Mul(K(25), Sub(One, Cos(Mul(Div(Var("i"), Mul(K(2), Var("n"))), Pi))))]]))
=============================================================================
