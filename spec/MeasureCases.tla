---------------------------- MODULE MeasureCases ----------------------------
(* Every combination of point classes on grids of up to MaxLen points, plus *)
(* the longer grids the harness asks for.                                   *)
EXTENDS Measures, TLC, Json
CONSTANTS MaxLen, Extra
VARIABLE cs         \* [pts |-> sequence of [f, g], zeromask |-> BOOLEAN]

FC == {"zero", "pos"}
GC(zm) == IF zm THEN {"neg", "zero", "above", "nan"} ELSE {"neg", "zero", "below", "at", "above", "nan"}
Grids(zm) == UNION {[1..n -> [f : FC, g : GC(zm)]] : n \in 1..MaxLen}
X == IF Extra THEN JsonDeserialize("extra.json") ELSE <<>>
Init == cs \in {[pts |-> p, zeromask |-> FALSE] : p \in Grids(FALSE)}
               \union {[pts |-> p, zeromask |-> TRUE] : p \in Grids(TRUE)}
               \union {X[i] : i \in 1..Len(X)}
Next == FALSE /\ UNCHANGED cs

(* design invariants *)
PenaltyIsGlobal ==
  LET n == Len(cs.pts) IN
  \/ \A i \in 1..n : ValueAt("kl", cs.pts, i) = Penalty
  \/ \A i \in 1..n : ValueAt("kl", cs.pts, i) # Penalty
UndefStays ==
  \A i \in 1..Len(cs.pts), m \in Names :
     cs.pts[i].g = "nan" /\ ~(m = "kl" /\ AnyNeg(cs.pts)) => ValueAt(m, cs.pts, i) = Undef
ZeroDensityNeverCounts ==
  \A i \in 1..Len(cs.pts), m \in {"kl", "tsallis"} :
     cs.pts[i].f = "zero" /\ cs.pts[i].g # "nan" /\ ~(m = "kl" /\ AnyNeg(cs.pts))
        => ValueAt(m, cs.pts, i) = Zero

Emit == PrintT("@@" \o ToJson([pts |-> cs.pts, zm |-> cs.zeromask,
   val |-> [m \in Names |-> [i \in 1..Len(cs.pts) |-> ValueAt(m, cs.pts, i)]],
   der |-> [m \in Names |-> [i \in 1..Len(cs.pts) |-> DerivAt(m, cs.pts, i)]]]))
EmitGrid == PrintT("@@" \o ToJson([gv |-> [m \in Names |-> GridValue(m)], gd |-> [m \in Names |-> GridDeriv(m)]]))
ASSUME EmitGrid
=============================================================================
