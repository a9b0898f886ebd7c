------------------------------- MODULE SlaterOrb -------------------------------
(* Radial Slater functions, orbitals, densities and kinetic energy densities.  *)
EXTENDS Expr, TLC, Json
CONSTANTS MaxN, MaxM, MaxK
(* factorials as unfolded products: TLC's integers are too small *)
RECURSIVE Fact(_)
Fact(m) == IF m <= 1 THEN One ELSE <<"mul", K(m), Fact(m - 1)>>
Z == Var("z")
r == Var("r")
NormC(n) == Mul(Pow(Mul(K(2), Z), n, 1), Pow(Mul(Mul(K(2), Z), Pow(Fact(2 * n), -1, 1)), 1, 2))
Radial(n) == Mul(Mul(NormC(n), Pow(r, n - 1, 1)), Exp(Neg(Mul(Z, r))))
DRadial(n) == D(Radial(n), "r")
(* normalization, exactly: the square of the norm is (2z)^(2n+1) / (2n)!, and    *)
(* int_0^inf r^(2n) exp(-2 z r) dr = (2n)! / (2z)^(2n+1).                        *)
NormSquared(n) == [twoz |-> 2 * n + 1, fact |-> -1]
GammaIntegral(k) == [twoz |-> -(k + 1), fact |-> 1]      \* k!/(2z)^(k+1), by k partial integrations
Normalized == \A n \in 1..MaxN : LET a == NormSquared(n) b == GammaIntegral(2 * n) IN a.twoz + b.twoz = 0 /\ a.fact + b.fact = 0

(* an orbital from its m basis functions S1..Sm *)
Cv(j) == Var("c" \o ToString(j))
Phi(m) == SumE([j \in 1..m |-> Mul(Cv(j), Var("S" \o ToString(j)))])
DPhi(m) == SumE([j \in 1..m |-> Mul(D(Phi(m), "S" \o ToString(j)), Var("dS" \o ToString(j)))])
P(k) == Var("p" \o ToString(k))
O(k) == Var("o" \o ToString(k))
E(k) == Var("e" \o ToString(k))
FourPi == Mul(K(4), Pi)
Homo == Var("homo")                       \* the largest of e1..eK
ValW(k) == Exp(Neg(Pow(Sub(E(k), Homo), 2, 1)))
Weight(mode, k) == CASE mode = "total" -> One [] mode = "valence" -> ValW(k) [] mode = "core" -> Sub(One, ValW(k))
Density(mode, n) == Div(SumE([k \in 1..n |-> Mul(Mul(O(k), Weight(mode, k)), Pow(P(k), 2, 1))]), FourPi)
DDensity(n) == SumE([k \in 1..n |-> Mul(D(Density("total", n), "p" \o ToString(k)), Var("dp" \o ToString(k)))])
(* orbital angular momentum l1..lK *)
L(k) == Var("l" \o ToString(k))
Kinetic(n) == Div(SumE([k \in 1..n |-> Mul(Mul(Num(1, 2), O(k)),
                Add(Pow(Var("dp" \o ToString(k)), 2, 1), Mul(Mul(L(k), Add(L(k), One)), Mul(Pow(P(k), 2, 1), Pow(r, -2, 1)))))]), FourPi)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
(* linear in the coefficients, and the derivative of an orbital is linear in the derivatives *)
Linear == \A m \in 1..3 : \A j \in 1..m : D(Phi(m), "c" \o ToString(j)) = Var("S" \o ToString(j))
Emit == PrintT("@@" \o ToJson([radial |-> [n \in 1..MaxN |-> Radial(n)], dradial |-> [n \in 1..MaxN |-> DRadial(n)],
          phi |-> [m \in 1..MaxM |-> Phi(m)], dphi |-> [m \in 1..MaxM |-> DPhi(m)],
          dens |-> [mode \in {"total", "core", "valence"} |-> [n \in 1..MaxK |-> Density(mode, n)]],
          ddens |-> [n \in 1..MaxK |-> DDensity(n)], kinetic |-> [n \in 1..MaxK |-> Kinetic(n)]]))
=============================================================================
