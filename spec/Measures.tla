------------------------------ MODULE Measures ------------------------------
(* The deviation measures between a density f and a model g.                *)
(* Point classes: f in {"zero","pos"}; g in {"neg","zero","below","at",     *)
(* "above","nan","negl"} relative to the mask value ("below"/"at" only if   *)
(* mask > 0; for mask 0 the class "zero" is at the mask).  "negl" is above  *)
(* the mask but smaller than f by a factor beyond the range of double       *)
(* precision: such a value counts as masked.                                *)
EXTENDS Expr

F == Var("f")
G == Var("g")
Al == Var("alpha")
Penalty == Var("penalty")
MaskV == Var("mask")

SquareVal == Pow(Sub(F, G), 2, 1)
KLVal(ratio) == Mul(F, Log(ratio))
TsallisVal(power) == Mul(Mul(F, Sub(power, One)), Pow(Sub(Al, One), -1, 1))
Ratio == Div(F, G)

Masked(gc) == gc \in {"neg", "zero", "below", "at", "negl"}
Negl == Mul(F, Pow(K(2), -1022, 1))
AnyNeg(pts) == \E i \in 1..Len(pts) : pts[i].g = "neg"

(* value and derivative at point i of the grid pts *)
ValueAt(m, pts, i) ==
  LET fc == pts[i].f  gc == pts[i].g IN
  CASE m = "square"  -> IF gc = "nan" THEN Undef ELSE SquareVal
    [] m = "kl"      -> IF AnyNeg(pts) THEN Penalty
                        ELSE IF gc = "nan" THEN Undef
                        ELSE IF Masked(gc) \/ fc = "zero" THEN Zero
                        ELSE KLVal(Ratio)
    [] m = "tsallis" -> IF gc = "nan" THEN Undef
                        ELSE IF fc = "zero" THEN Zero
                        ELSE IF Masked(gc) THEN TsallisVal(Zero)
                        ELSE TsallisVal(VPow(Ratio, Sub(Al, One)))
DerivAt(m, pts, i) ==
  LET fc == pts[i].f  gc == pts[i].g IN
  CASE m = "square"  -> IF gc = "nan" THEN Undef ELSE D(SquareVal, "g")
    [] m = "kl"      -> IF AnyNeg(pts) THEN Penalty
                        ELSE IF gc = "nan" THEN Undef
                        ELSE IF Masked(gc) THEN K(-1)          \* substituted ratio one
                        ELSE IF fc = "zero" THEN Zero
                        ELSE D(KLVal(Ratio), "g")
    [] m = "tsallis" -> IF gc = "nan" THEN Undef
                        ELSE IF Masked(gc) THEN Zero           \* substituted ratio zero
                        ELSE IF fc = "zero" THEN Zero
                        ELSE D(TsallisVal(VPow(Ratio, Sub(Al, One))), "g")

(* the same, as one expression over a whole grid (used inside fits) *)
IfNan(a, x, y) == <<"ite", "nan", a, a, x, y>>
IfAnyNeg(a, x, y) == <<"anyneg", a, x, y>>
GridValue(m) ==
  CASE m = "square"  -> SquareVal
    [] m = "kl"      -> IfAnyNeg(G, Penalty, IfNan(G, Undef,
                           Ite("le", G, MaskV, Zero, Ite("eq", F, Zero, Zero, Ite("le", G, Negl, Zero, KLVal(Ratio))))))
    [] m = "tsallis" -> IfNan(G, Undef, Ite("eq", F, Zero, Zero,
                           Ite("le", G, MaskV, TsallisVal(Zero), Ite("le", G, Negl, TsallisVal(Zero), TsallisVal(VPow(Ratio, Sub(Al, One)))))))
GridDeriv(m) ==
  CASE m = "square"  -> D(SquareVal, "g")
    [] m = "kl"      -> IfAnyNeg(G, Penalty, IfNan(G, Undef,
                           Ite("le", G, MaskV, K(-1), Ite("eq", F, Zero, Zero, Ite("le", G, Negl, K(-1), D(KLVal(Ratio), "g"))))))
    [] m = "tsallis" -> IfNan(G, Undef, Ite("le", G, MaskV, Zero, Ite("eq", F, Zero, Zero, Ite("le", G, Negl, Zero,
                           D(TsallisVal(VPow(Ratio, Sub(Al, One))), "g")))))
Names == {"square", "kl", "tsallis"}
=============================================================================
