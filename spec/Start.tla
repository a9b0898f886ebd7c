-------------------------------- MODULE Start --------------------------------
(* How the greedy methods start.                                            *)
(* Least squares: the weighted straight-line fit of log f against r^2 for   *)
(* the weights 1, f and f^2, the best of the three by objective.  Each fit  *)
(* is the solution of the normal equations of                                *)
(*   sum w (L - A + B t)^2,   L = log f,  t = r^2.                          *)
(* Kullback-Leibler: norm N and exponent 3N/(2<r^2>).                       *)
EXTENDS Fit, Json
CONSTANTS Vals, Wts
VARIABLE cs

(* -- exact check on integers: solution by Cramer's rule ------------------- *)
RECURSIVE S(_, _, _)
S(n, w, g) == IF n = 0 THEN 0 ELSE S(n - 1, w, g) + w[n] * g[n]
Ones(n) == [i \in 1..n |-> 1]
Sq(x) == [i \in 1..Len(x) |-> x[i] * x[i]]
Pr(x, y) == [i \in 1..Len(x) |-> x[i] * y[i]]
Det(n, w, t) == S(n, w, Ones(n)) * S(n, w, Sq(t)) - S(n, w, t) * S(n, w, t)
ANum(n, w, t, l) == S(n, w, l) * S(n, w, Sq(t)) - S(n, w, t) * S(n, w, Pr(t, l))
BNum(n, w, t, l) == S(n, w, l) * S(n, w, t) - S(n, w, Ones(n)) * S(n, w, Pr(t, l))
Init == cs \in {x \in [t : [1..3 -> 0..4], w : [1..3 -> Wts], l : [1..3 -> Vals]] : x.t[1] < x.t[2] /\ x.t[2] < x.t[3]}
Next == FALSE /\ UNCHANGED cs
NonSingular == Det(3, cs.w, cs.t) > 0
(* normal equations, times the determinant *)
Normal == LET d == Det(3, cs.w, cs.t)  a == ANum(3, cs.w, cs.t, cs.l)  b == BNum(3, cs.w, cs.t, cs.l)
              e == [i \in 1..3 |-> d * cs.l[i] - a + b * cs.t[i]]
          IN S(3, cs.w, e) = 0 /\ S(3, cs.w, Pr(e, cs.t)) = 0
(* a density that is one Gaussian, log f = A - B t, is reproduced by every weight *)
Exact == \A A0 \in -2..2, B0 \in 1..3 :
           LET l == [i \in 1..3 |-> A0 - B0 * cs.t[i]]  d == Det(3, cs.w, cs.t) IN
           ANum(3, cs.w, cs.t, l) = A0 * d /\ BNum(3, cs.w, cs.t, l) = B0 * d

(* -- the same as expressions over the grid ("int" with unit weights) ------ *)
T == Pow(Var("r1"), 2, 1)
L == Log(F)
Sx(e) == Integral(Mul(W, e))
DetE == Sub(Mul(Sx(One), Sx(Pow(T, 2, 1))), Mul(Sx(T), Sx(T)))
AE == Div(Sub(Mul(Sx(L), Sx(Pow(T, 2, 1))), Mul(Sx(T), Sx(Mul(T, L)))), DetE)
BE == Div(Sub(Mul(Sx(L), Sx(T)), Mul(Sx(One), Sx(Mul(T, L)))), DetE)
(* the amplitude exp(A) is the coefficient times the norm of the function *)
StartLS(norm) == [c |-> IF norm THEN Div(Exp(AE), MonoExpr(NormMono("s"), BE)) ELSE Exp(AE), a |-> BE]
StartKL == [c |-> N, a |-> Div(Mul(K(3), N), Mul(K(2), Q(TRUE, Mul(Pow(X, 2, 1), F))))]
(* moment condition: a normalized s function of that exponent has <r^2> = 3/(2a) (Gauss!SecondMoment) *)
ASSUME SecondMoment
ASSUME PrintT("@@" \o ToJson([norm |-> StartLS(TRUE), plain |-> StartLS(FALSE), kl |-> StartKL,
          obj |-> <<Q(FALSE, GridValue("square")), Q(TRUE, GridValue("square"))>>]))
=============================================================================
