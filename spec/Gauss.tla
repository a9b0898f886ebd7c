------------------------------- MODULE Gauss -------------------------------
(* Gaussian basis functions, the atomic and molecular density models, their *)
(* parameter layout, normalization and derivatives.                         *)
EXTENDS Expr, TLC

Types == {"s", "p"}

(* -- monomials q * pi^(p2/2) * alpha^(a2/2) : the algebra of norms ------- *)
Mono(n, d, p2, a2) == [q |-> NormNum(n, d), p2 |-> p2, a2 |-> a2]
MonoMul(x, y) == [q |-> NormNum(x.q[2]*y.q[2], x.q[3]*y.q[3]), p2 |-> x.p2 + y.p2, a2 |-> x.a2 + y.a2]
MonoInv(x) == [q |-> NormNum(x.q[3], x.q[2]), p2 |-> -x.p2, a2 |-> -x.a2]
MonoD(x) == [q |-> NormNum(x.q[2]*x.a2, 2*x.q[3]), p2 |-> x.p2, a2 |-> x.a2 - 2]   \* d/d alpha
MonoNeg(x) == [x EXCEPT !.q = NormNum(-x.q[2], x.q[3])]
MonoOne == Mono(1, 1, 0, 0)
MonoExpr(x, a) == Mul(Mul(x.q, Pow(Pi, x.p2, 2)), Pow(a, x.a2, 2))
  \* Pow(e, n, d) with n = 0 is One; n = d is e

RPow(ty) == IF ty = "s" THEN 0 ELSE 2            \* power of r of the primitive
(* Integral over space of r^(2j) exp(-a r^2).  j = 0 is the Gaussian integral (axiom); *)
(* each further factor r^2 is minus the derivative with respect to a.                  *)
RECURSIVE Moment(_)
Moment(j) == IF j = 0 THEN Mono(1, 1, 3, -3) ELSE MonoNeg(MonoD(Moment(j - 1)))
(* The normalization constants the system documents. *)
NormMono(ty) == IF ty = "s" THEN Mono(1, 1, -3, 3) ELSE Mono(2, 3, -3, 5)

NormalizedToOne == \A ty \in Types : MonoMul(NormMono(ty), Moment(RPow(ty) \div 2)) = MonoOne
(* The fixed-point pre-factor is the logarithmic derivative a * d(norm)/da / norm. *)
Prefactor(ty) == NormNum(NormMono(ty).a2, 2)
PrefactorIsLogDerivative ==
  \A ty \in Types : LET m == NormMono(ty)  ld == MonoMul(MonoMul(MonoD(m), MonoInv(m)), Mono(1,1,0,2))
                    IN ld = [q |-> Prefactor(ty), p2 |-> 0, a2 |-> 0]
(* <r^2> of a normalized function is prefactor/alpha: what makes the exponent *)
(* update alpha' = prefactor <b f/g> / <b r^2 f/g> a fixed point at f = g.     *)
SecondMoment ==
  \A ty \in Types : MonoMul(NormMono(ty), Moment(RPow(ty) \div 2 + 1))
                      = [q |-> Prefactor(ty), p2 |-> 0, a2 |-> -2]

(* -- basis functions and models ------------------------------------------ *)
Prim(ty, a, r) == Mul(Pow(r, RPow(ty), 1), Exp(Neg(Mul(a, Pow(r, 2, 1)))))
Basis(ty, norm, a, r) == IF norm THEN Mul(MonoExpr(NormMono(ty), a), Prim(ty, a, r)) ELSE Prim(ty, a, r)
BasisIntegral(ty, norm, a) == IF norm THEN One ELSE MonoExpr(Moment(RPow(ty) \div 2), a)

C(i) == Var("c" \o ToString(i))
A(i) == Var("a" \o ToString(i))
R(k) == Var("r" \o ToString(k))

RECURSIVE SumLay(_, _)
SumLay(b, k) == IF k = 0 THEN 0 ELSE SumLay(b, k-1) + b[k][1] + b[k][2]
NBasis(b) == SumLay(b, Len(b))

(* A molecular basis is a sequence of <<ns, np>>, one per centre.  Parameter *)
(* i belongs to the centre whose block contains it; s precede p in a block.  *)
CenterOf(b, i) == CHOOSE k \in 1..Len(b) : SumLay(b, k-1) < i /\ i <= SumLay(b, k)
TypeOf(b, i) == LET k == CenterOf(b, i) IN IF i - SumLay(b, k-1) <= b[k][1] THEN "s" ELSE "p"

Term(b, norm, i) == Mul(C(i), Basis(TypeOf(b, i), norm, A(i), R(CenterOf(b, i))))
Value(b, norm) == SumE([i \in 1..NBasis(b) |-> Term(b, norm, i)])
(* One column per parameter: coefficients first, then exponents. *)
Column(b, norm, j) ==
  LET n == NBasis(b)
      i == IF j <= n THEN j ELSE j - n
      v == IF j <= n THEN "c" \o ToString(i) ELSE "a" \o ToString(i)
  IN D(Term(b, norm, i), v)      \* the other terms do not contain the variable: see ColumnIsTotal
ColumnIsTotal(b, norm) ==
  \A j \in 1..2*NBasis(b) :
     LET n == NBasis(b)  i == IF j <= n THEN j ELSE j - n
         v == IF j <= n THEN "c" \o ToString(i) ELSE "a" \o ToString(i)
     IN D(Value(b, norm), v) = Column(b, norm, j)
ModelIntegral(b, norm) ==
  SumE([i \in 1..NBasis(b) |-> Mul(C(i), BasisIntegral(TypeOf(b, i), norm, A(i)))])

(* structure: blocks partition the parameters *)
BlocksOK(b) ==
  /\ \A i \in 1..NBasis(b) : \E k \in 1..Len(b) : CenterOf(b, i) = k
  /\ \A i \in 1..NBasis(b)-1 : CenterOf(b, i) <= CenterOf(b, i+1)
  /\ \A k \in 1..Len(b) : LET I == {i \in 1..NBasis(b) : CenterOf(b, i) = k} IN
        \A i, j \in I : i < j /\ TypeOf(b, i) = "p" => TypeOf(b, j) = "p"
=============================================================================
