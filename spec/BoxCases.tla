------------------------------ MODULE BoxCases ------------------------------
(* Boxes around molecules.  "plain": atoms with integer coordinates, box     *)
(* along the coordinate axes.  "body": one pair of atoms on each body axis   *)
(* at +x1 (charge q1) and -x2 (charge q2) with q1 x1 = q2 x2, so that the    *)
(* charge centre is the origin and the inertia tensor is diagonal.           *)
EXTENDS Grids, TLC, Json
VARIABLE cs
XX == JsonDeserialize("cases.json")
Init == cs \in {XX[i] : i \in 1..Len(XX)}
Next == FALSE /\ UNCHANGED cs
Coords(d) == {cs.atoms[i][d] : i \in 1..Len(cs.atoms)}
Cells == [d \in 1..3 |-> BoxCells(Coords(d), cs.e, cs.s)]
Origin2 == [d \in 1..3 |-> BoxOrigin2(Coords(d), cs.e, cs.s)]
Covers == \A d \in 1..3 : BoxCovers(Coords(d), cs.e, cs.s)
Smallest == \A d \in 1..3 : BoxSmallest(Coords(d), cs.e, cs.s)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Inertia(a, b) == LET n == Len(cs.atoms) IN
   Sum([i \in 1..n |-> cs.q[i] * ((IF a = b THEN cs.atoms[i][1]*cs.atoms[i][1] + cs.atoms[i][2]*cs.atoms[i][2]
                                     + cs.atoms[i][3]*cs.atoms[i][3] ELSE 0) - cs.atoms[i][a]*cs.atoms[i][b])], n)
BodyIsPrincipal == cs.kind = "body" =>
   /\ \A d \in 1..3 : Sum([i \in 1..Len(cs.atoms) |-> cs.q[i]*cs.atoms[i][d]], Len(cs.atoms)) = 0
   /\ \A a, b \in 1..3 : a # b => Inertia(a, b) = 0
Emit == PrintT("@@" \o ToJson([c |-> cs, cells |-> Cells, origin2 |-> Origin2,
                               inertia |-> [d \in 1..3 |-> Inertia(d, d)]]))
=============================================================================
