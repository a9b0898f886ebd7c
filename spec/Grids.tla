------------------------------- MODULE Grids -------------------------------
(* Radial grids (points, trapezoidal rule) and cubic grids (lattice,        *)
(* volume element, box around a molecule).                                  *)
EXTENDS Expr, FiniteSets

(* -- radial points -------------------------------------------------------- *)
Cos(e) == <<"cos", e>>
Lo == Var("lo")
Hi == Var("hi")
Z  == Var("z")
UniformPoint(n, i) == IF n = 1 THEN Lo ELSE Add(Lo, Mul(NormNum(i, n - 1), Sub(Hi, Lo)))   \* i in 0..n-1
UniformPoints(n) == [k \in 1..n |-> UniformPoint(n, k - 1)]
Angle(p, m) == Mul(NormNum(p, 2 * m), Pi)
CorePoint(p, m) == Div(Sub(One, Cos(Angle(p, m))), Mul(K(2), Z))
DiffPoint(p, n) == Mul(K(25), Sub(One, Cos(Angle(p, n))))
CoreIdx(m, origin) == IF origin THEN [k \in 1..m |-> k - 1] ELSE [k \in 1..m |-> k]
ClenshawPoints(m, n, origin) ==
  [k \in 1..m |-> LET p == CoreIdx(m, origin)[k] IN IF p = 0 THEN Zero ELSE CorePoint(p, m)]
    \o [k \in 1..n |-> DiffPoint(k, n)]

(* -- trapezoidal rule on integers: twice the integral --------------------- *)
RECURSIVE Trapz2(_, _)
Trapz2(x, y) == IF Len(x) < 2 THEN 0
                ELSE (x[2] - x[1]) * (y[1] + y[2]) + Trapz2(Tail(x), Tail(y))

(* -- lattice --------------------------------------------------------------- *)
Lattice(sh) == (0..sh[1]-1) \X (0..sh[2]-1) \X (0..sh[3]-1)
(* the successor of an index triple: the last index varies fastest *)
Succ(sh, i) ==
  IF i[3] + 1 < sh[3] THEN <<i[1], i[2], i[3] + 1>>
  ELSE IF i[2] + 1 < sh[2] THEN <<i[1], i[2] + 1, 0>>
  ELSE <<i[1] + 1, 0, 0>>
Position(o, ax, i) == [d \in 1..3 |-> o[d] + i[1]*ax[1][d] + i[2]*ax[2][d] + i[3]*ax[3][d]]
Det(a) == a[1][1]*(a[2][2]*a[3][3] - a[2][3]*a[3][2])
        - a[1][2]*(a[2][1]*a[3][3] - a[2][3]*a[3][1])
        + a[1][3]*(a[2][1]*a[3][2] - a[2][2]*a[3][1])

(* -- box around a molecule, one axis, in integer length units -------------- *)
CeilDiv(a, b) == -((-a) \div b)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
BoxCells(S, e, s) == CeilDiv(SetMax(S) - SetMin(S) + 2*e, s)
BoxOrigin2(S, e, s) == SetMax(S) + SetMin(S) - BoxCells(S, e, s) * s      \* twice the origin
BoxCovers(S, e, s) ==
  \A x \in S : /\ BoxOrigin2(S, e, s) <= 2*(x - e)
               /\ 2*(x + e) <= BoxOrigin2(S, e, s) + 2 * BoxCells(S, e, s) * s
BoxSmallest(S, e, s) == (BoxCells(S, e, s) - 1) * s < SetMax(S) - SetMin(S) + 2*e
=============================================================================
