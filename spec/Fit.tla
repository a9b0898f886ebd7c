-------------------------------- MODULE Fit --------------------------------
(* Quantities computed by a fit of a model g (Gauss) to a density f on a    *)
(* grid: integrals, goodness of fit, the fixed-point step, and the          *)
(* optimizer's objective, gradient and constraint.                          *)
(* Variables: "f" density, "g" model value, "x" radial coordinate of the    *)
(* grid, "w" weights of the objective, "norm" the prescribed norm.          *)
EXTENDS Gauss, Measures

X == Var("x")
N == Var("norm")
W == Var("w")
(* quadrature, with the spherical factor on request *)
Q(sph, e) == Integral(IF sph THEN Mul(Mul(Mul(K(4), Pi), Pow(X, 2, 1)), e) ELSE e)

DensityNorm(sph) == Q(sph, F)
Performance(sph) ==
  << Q(sph, G), Q(sph, Abs(Sub(F, G))), MaxOver(Abs(Sub(F, G))), Q(sph, GridValue("square")), Q(sph, GridValue("kl")) >>

(* -- Kullback-Leibler fixed-point step ----------------------------------- *)
Lambda(sph) == Div(Q(sph, F), N)
KLRatio == Neg(GridDeriv("kl"))
Avg(b, norm, sph, i)  == Q(sph, Mul(KLRatio, Column(b, norm, i)))
Avg2(b, norm, sph, i) == Q(sph, Mul(Mul(KLRatio, Column(b, norm, i)), Pow(R(CenterOf(b, i)), 2, 1)))
NewCoeff(b, norm, sph, i) == Mul(C(i), Div(Avg(b, norm, sph, i), Lambda(sph)))
NewExpon(b, norm, sph, i) == Mul(Prefactor(TypeOf(b, i)), Div(Avg(b, norm, sph, i), Avg2(b, norm, sph, i)))

(* -- general optimizer ---------------------------------------------------- *)
Modes == {"both", "coeffs", "exps"}
FreeCols(b, mode) == LET n == NBasis(b) IN
  CASE mode = "both"   -> [j \in 1..2*n |-> j]
    [] mode = "coeffs" -> [j \in 1..n |-> j]
    [] mode = "exps"   -> [j \in 1..n |-> n + j]
Objective(m, sph) == Q(sph, Mul(W, GridValue(m)))
Gradient(m, b, norm, sph, mode) ==
  LET fc == FreeCols(b, mode) IN
  [k \in 1..Len(fc) |-> Q(sph, Mul(Mul(W, GridDeriv(m)), Column(b, norm, fc[k])))]
Constraint(sph) == Sub(N, Q(sph, G))
(* the gradient of the constraint, for the derivative-consistency invariant *)
=============================================================================
