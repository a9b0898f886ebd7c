------------------------------- MODULE Expr -------------------------------
(* Symbolic expressions, exchanged with the conformance harness as nested   *)
(* JSON arrays, and their exact derivative.                                 *)
(*   <<"num",n,d>> <<"pi">> <<"var",v>> <<"add",a,b>> <<"mul",a,b>>         *)
(*   <<"pow",e,n,d>> (rational power) <<"exp",e>> <<"log",e>> <<"abs",e>>   *)
(*   <<"ite",rel,a,b,x,y>> (rel in "le","lt","eq": if a rel b then x else y)*)
(*   <<"vpow",e,p>> (power with an expression exponent free of the variable)*)
(*   <<"int",e>> (quadrature over the grid) <<"max",e>> (over the grid)     *)
(*   <<"undef">>                                                            *)
EXTENDS Integers, Sequences

Num(n, d) == <<"num", n, d>>
K(n)    == <<"num", n, 1>>
Zero      == K(0)
One       == K(1)
Pi        == <<"pi">>
Var(v)    == <<"var", v>>

IsNum(e)  == e[1] = "num"
IsZero(e) == IF IsNum(e) THEN e[2] = 0 ELSE FALSE
IsOne(e)  == IF IsNum(e) THEN e[2] = e[3] ELSE FALSE

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
NormNum(n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == Gcd(AbsI(n), AbsI(d))
  IN  IF n = 0 THEN <<"num", 0, 1>> ELSE <<"num", s * (n \div g), s * (d \div g)>>
  \* n \div g is exact, so the sign convention of \div does not matter

Add(a, b) == IF IsZero(a) THEN b ELSE IF IsZero(b) THEN a
             ELSE IF IsNum(a) /\ IsNum(b) THEN NormNum(a[2]*b[3] + b[2]*a[3], a[3]*b[3])
             ELSE <<"add", a, b>>
Mul(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero
             ELSE IF IsOne(a) THEN b ELSE IF IsOne(b) THEN a
             ELSE IF IsNum(a) /\ IsNum(b) THEN NormNum(a[2]*b[2], a[3]*b[3])
             ELSE <<"mul", a, b>>
Neg(a)    == Mul(K(-1), a)
Sub(a, b) == Add(a, Neg(b))
Pow(e, n, d) == IF n = 0 THEN One ELSE IF n = d THEN e ELSE <<"pow", e, n, d>>
Div(a, b) == Mul(a, Pow(b, -1, 1))
Exp(e)    == IF IsZero(e) THEN One ELSE <<"exp", e>>
Log(e)    == <<"log", e>>
Abs(e)    == <<"abs", e>>
Ite(rel, a, b, x, y) == <<"ite", rel, a, b, x, y>>
VPow(e, p) == <<"vpow", e, p>>
Integral(e) == <<"int", e>>
MaxOver(e) == <<"max", e>>
Undef == <<"undef">>

RECURSIVE SumE(_)
SumE(s) == IF s = <<>> THEN Zero ELSE IF Len(s) = 1 THEN s[1] ELSE Add(s[1], SumE(Tail(s)))

(* the exact derivative with respect to variable v *)
RECURSIVE D(_, _)
D(e, v) ==
  CASE e[1] = "num"  -> Zero
    [] e[1] = "pi"   -> Zero
    [] e[1] = "var"  -> IF e[2] = v THEN One ELSE Zero
    [] e[1] = "add"  -> Add(D(e[2], v), D(e[3], v))
    [] e[1] = "mul"  -> Add(Mul(D(e[2], v), e[3]), Mul(e[2], D(e[3], v)))
    [] e[1] = "pow"  -> Mul(Mul(NormNum(e[3], e[4]), Pow(e[2], e[3] - e[4], e[4])), D(e[2], v))
    [] e[1] = "exp"  -> Mul(e, D(e[2], v))
    [] e[1] = "log"  -> Mul(Pow(e[2], -1, 1), D(e[2], v))
    [] e[1] = "vpow" -> Mul(Mul(e[3], VPow(e[2], Sub(e[3], One))), D(e[2], v))
    [] e[1] = "ite"  -> Ite(e[2], e[3], e[4], D(e[5], v), D(e[6], v))
    [] e[1] = "int"  -> LET x == D(e[2], v) IN IF IsZero(x) THEN Zero ELSE Integral(x)
    [] e[1] = "undef" -> Undef
=============================================================================
