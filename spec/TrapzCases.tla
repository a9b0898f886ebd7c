------------------------------ MODULE TrapzCases ------------------------------
(* Exhaustive small integer grids for the algebraic properties, plus random  *)
(* larger ones from the harness.                                             *)
EXTENDS Grids, TLC, Json
CONSTANTS MaxLen, Vals
VARIABLE cs
XX == JsonDeserialize("extra.json")
Grid(n) == {x \in [1..n -> 0..4] : \A i \in 1..n-1 : x[i] < x[i+1]}
Small == UNION {[x : Grid(n), y : [1..n -> Vals]] : n \in 1..MaxLen}
Init == cs \in Small \union {XX[i] : i \in 1..Len(XX)}
Next == FALSE /\ UNCHANGED cs
N == Len(cs.x)
(* linear in the values *)
Scaled == [i \in 1..N |-> 3 * cs.y[i] - 2 * cs.x[i]]
Linear == Trapz2(cs.x, Scaled) = 3 * Trapz2(cs.x, cs.y) - 2 * Trapz2(cs.x, cs.x)
(* exact for linear functions: the integral of x is (b^2 - a^2)/2 *)
ExactLinear == Trapz2(cs.x, cs.x) = cs.x[N]*cs.x[N] - cs.x[1]*cs.x[1]
(* additive over a split of the grid *)
Additive == \A k \in 1..N : Trapz2(cs.x, cs.y) =
   Trapz2(SubSeq(cs.x, 1, k), SubSeq(cs.y, 1, k)) + Trapz2(SubSeq(cs.x, k, N), SubSeq(cs.y, k, N))
Emit == PrintT("@@" \o ToJson([x |-> cs.x, y |-> cs.y, two |-> Trapz2(cs.x, cs.y)]))
=============================================================================
