-------------------------------- MODULE Nnls --------------------------------
(* The optimality conditions that decide whether non-negative coefficients  *)
(* solve the least-squares problem  min |M x - d|^2, x >= 0:                *)
(*   the gradient M^T (M x - d) is non-negative, and zero where x > 0.      *)
(* TLC confirms on all small integer problems that they imply optimality.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxM, MaxD, MaxX
VARIABLES m, d, x
Rows == 1..2
Cols == 1..2
Init == m \in [Rows -> [Cols -> 0..MaxM]] /\ d \in [Rows -> 0..MaxD] /\ x \in [Cols -> 0..MaxX]
Next == FALSE /\ UNCHANGED <<m, d, x>>
Res(y, i) == m[i][1]*y[1] + m[i][2]*y[2] - d[i]
Grad(y, j) == m[1][j]*Res(y, 1) + m[2][j]*Res(y, 2)
Sq(y) == Res(y, 1)*Res(y, 1) + Res(y, 2)*Res(y, 2)
KKT(y) == \A j \in Cols : y[j] >= 0 /\ Grad(y, j) >= 0 /\ (y[j] > 0 => Grad(y, j) = 0)
Optimal == KKT(x) => \A y \in [Cols -> 0..MaxX+2] : Sq(y) >= Sq(x)
=============================================================================
