--------------------------------- MODULE EM ---------------------------------
(* The coefficient update of the fixed-point method in exact arithmetic on  *)
(* a discrete grid.  fw[i] = f_i * weight_i, b[i][j] the j-th basis function *)
(* at point i, c the coefficients, lambda = sum(fw)/nrm.                    *)
(* Rationals are pairs <<n, d>> with d > 0, reduced.                        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Pts, Fns, MaxF, MaxB, MaxC
VARIABLES fw, b, c, nrm

RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Q(n, d) == LET g == Gcd(n, d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
QAdd(x, y) == Q(x[1]*y[2] + y[1]*x[2], x[2]*y[2])
QMul(x, y) == LET g == Gcd(x[1], y[2])  h == Gcd(y[1], x[2]) IN
              IF x[1] = 0 \/ y[1] = 0 THEN <<0, 1>>
              ELSE Q((x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g))
QInv(x) == <<x[2], x[1]>>
QGe(x, y) == LET g == Gcd(x[1], y[1])  h == Gcd(x[2], y[2]) IN
             IF y[1] = 0 THEN TRUE ELSE (x[1] \div g) * (y[2] \div h) >= (y[1] \div g) * (x[2] \div h)
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN <<0, 1>> ELSE QAdd(s[1], QSum(Tail(s)))
RECURSIVE QPow(_, _)
QPow(x, n) == IF n = 0 THEN <<1, 1>> ELSE QMul(x, QPow(x, n - 1))
RECURSIVE QProd(_)
QProd(s) == IF s = <<>> THEN <<1, 1>> ELSE QMul(s[1], QProd(Tail(s)))

G(cc, i) == QSum([j \in 1..Fns |-> QMul(cc[j], <<b[i][j], 1>>)])
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE s[1] + ISum(Tail(s))
Lambda == Q(ISum(fw), nrm)
Step(cc) == [j \in 1..Fns |->
   QMul(cc[j], QMul(QInv(Lambda),
     QSum([i \in 1..Pts |-> QMul(<<fw[i] * b[i][j], 1>>, QInv(G(cc, i)))])))]

C0 == [j \in 1..Fns |-> <<c[j], 1>>]
Total(cc) == QSum([j \in 1..Fns |-> cc[j]])

Init == /\ fw \in [1..Pts -> 0..MaxF] /\ ISum(fw) > 0
        /\ b \in [1..Pts -> [1..Fns -> 0..MaxB]]
        /\ c \in [1..Fns -> 1..MaxC]
        /\ nrm \in 1..MaxC * Fns
        \* every model value positive (nothing masked); every function overlaps the density
        /\ \A i \in 1..Pts : \E j \in 1..Fns : b[i][j] > 0
        /\ \A j \in 1..Fns : \E i \in 1..Pts : b[i][j] * fw[i] > 0
Next == FALSE /\ UNCHANGED <<fw, b, c, nrm>>

(* one step reaches the prescribed norm from any start, and keeps positivity *)
SumsToNorm == Total(Step(C0)) = <<nrm, 1>>
Positive == \A j \in 1..Fns : Step(C0)[j][1] > 0
(* sum of fw log(f/g) does not increase: the product of g^fw does not decrease *)
Likelihood(cc) == QProd([i \in 1..Pts |-> QPow(G(cc, i), fw[i])])
Descent == Total(C0) = <<nrm, 1>> => QGe(Likelihood(Step(C0)), Likelihood(C0))
=============================================================================
