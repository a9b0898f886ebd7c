------------------------------- MODULE Guards -------------------------------
(* The argument checks of the public calls as a decision table over          *)
(* abstract argument values: Dom(c) lists the classes of each argument, and  *)
(* Bad(c, a) is the set of kinds of error of the preconditions which the     *)
(* arguments a violate.  A call is accepted iff Bad(c, a) = {}; otherwise it *)
(* ends in an error of one of these kinds and the object keeps its state.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Calls          \* the calls to enumerate
VARIABLES call, args, bad, size, sizeBefore

vars == <<call, args, bad, size, sizeBefore>>

Val(t, v, s) == [t |-> t, v |-> v, s |-> s]
I(v) == Val("int", v, <<>>)
NpI(v) == Val("npint", v, <<>>)
F(v) == Val("float", v, <<>>)
B(v) == Val("bool", v, <<>>)
Str == Val("str", 0, <<>>)
None == Val("none", 0, <<>>)
Arr(s) == Val("arr", 1, s)
Lst(s) == Val("list", 1, s)
Name(n) == Val("name", n, <<>>)          \* one of a fixed list of names, known to the harness by number
Near(v) == Val("near", v, <<>>)          \* 1 + sign(v) 10^-|v|
Tiny(v) == Val("tiny", v, <<>>)          \* sign(v) 10^-|v|
Bools == {B(0), B(1)}

IsInt(x) == x.t = "int"
IsIntegral(x) == x.t \in {"int", "npint"}
IsNum(x) == x.t \in {"int", "float"}
IsArr(x) == x.t = "arr"
Nd(x, k) == IsArr(x) /\ Len(x.s) = k
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Size(x) == Prod(x.s)

If(c, k) == IF c THEN {k} ELSE {}
T == "TypeError"
V == "ValueError"
A == "AttributeError"
R == "RuntimeError"
S == "AssertionError"

GridLen == 5            \* points of the example radial grid
CubeLen == 8            \* points of the example cubic grid
NB == 3                 \* functions of the example models (2 s-type, 1 p-type)

Shapes(n) == {Arr(<<n>>), Arr(<<n - 1>>), Arr(<<n + 1>>), Arr(<<n, 1>>), Arr(<<1, n>>), Arr(<<>>)}

(* grids given to fits: 0 radial, 1 three-dimensional, 2 without points, 3 without integrate, 4 integrate not callable,
   5 as many points as dimensions, 6 points in one column *)
Grid(n) == Val("grid", n, <<>>)
GridBad(g) == If(g.v \in 2..4, A)
Sph(g, s) == If(g.v \in {1, 5, 6} /\ s.v = 1, V)
(* densities: 0 positive, 1 with a negative value, 2 zero everywhere, 3 one value short, 4 with an undefined and a negative value *)
Dens(n) == Val("dens", n, <<>>)
(* points of the model: 0 the grid's, 1 the grid's within 1e-13, 2 others, 3 one point fewer *)
MPts(n) == Val("mpts", n, <<>>)
(* measures: 0, 1, 2 the three measures; 3 a string, 4 a class instead of an object, 5 nothing *)
Meas(n) == Val("meas", n, <<>>)
(* optimizers: 0 slsqp, 1 SLSQP, 2 trust-constr, 3 bfgs, 4 empty string *)
Meth(n) == Val("meth", n, <<>>)
(* choice functions: 0, 1, 2 the three of them; 3 .. 6 others *)
Choice(n) == Val("choice", n, <<>>)
(* elements: 0 neutral only, 1 with anion, 2 with cation, 3 both, 4 heavy; 5 a symbol with digits, 6 empty, 7 a number, 8 nothing *)
Elem(n) == Val("elem", n, <<>>)

Dom(c) ==
  CASE c = "base.init" -> <<{Arr(<<5>>), Arr(<<1>>), Arr(<<5, 1>>), Arr(<<2, 2>>), Arr(<<>>), Lst(<<5>>), None, Str}>>
    [] c = "base.integrate" -> <<Shapes(GridLen)>>
    [] c = "cubic.integrate" -> <<Shapes(CubeLen) \cup {Arr(<<2, 2, 2>>), Arr(<<2, 4>>)}>>
    [] c = "uniform" -> <<{I(1), I(2), I(7), I(0), I(-3), F(7), Str, None}, {I(0), F(0), F(2), I(2), I(-1), Str, None, Lst(<<1>>), Arr(<<>>), Arr(<<1>>)},
                          {I(2), F(2), F(5), I(0), Str, None, Lst(<<1>>), Arr(<<>>), Arr(<<1>>)}>>
    [] c = "clenshaw" -> <<{I(1), I(8), I(0), I(-1), F(2), Str}, {I(0), I(4), I(-1), I(-2), F(4), None}, {I(0), I(3), I(-1), I(-2), F(3), Str},
                           {None, Lst(<<2>>), Lst(<<0>>), Val("tuple", 1, <<2>>), I(5), F(5), Str}, {B(0), B(1), I(1), None, Str}>>
    [] c \in {"sd", "kl", "ts"} -> <<{Arr(<<4>>), Arr(<<1>>), Arr(<<4, 1>>), Arr(<<2, 2>>), Arr(<<>>), Lst(<<4>>), None},
                                     {Arr(<<4>>), Arr(<<1>>), Arr(<<4, 1>>), Arr(<<2, 2>>), Arr(<<>>), Lst(<<4>>), I(1), None},
                                     {B(0), B(1), I(1), I(0), Str, None}>>
    [] c = "tsallis.init" -> <<{F(-1), I(-2), F(0), I(0), F(1), I(1), F(2), I(3), F(30)} \cup {Near(s * v) : s \in {-1, 1}, v \in {1, 3, 6, 9, 11, 13, 15}}
                             \cup {Tiny(s * v) : s \in {-1, 1}, v \in {1, 2, 4, 7, 12, 300}} >>
    [] c = "atomic.init" -> <<{Arr(<<4>>), Arr(<<4, 3>>), Arr(<<4, 2>>), Arr(<<4, 1>>), Arr(<<3>>), Lst(<<4>>), None},
                              {None, Arr(<<1>>), Arr(<<3>>), Arr(<<2>>), Arr(<<4>>), Arr(<<1, 3>>), Arr(<<1, 1>>), Arr(<<>>), Lst(<<3>>), Lst(<<1>>)},
                              {I(0), I(2), I(-1), F(1), Str, NpI(2), NpI(0), None}, {I(0), I(1), I(-1), F(1), NpI(1), NpI(-2)}, Bools>>
    [] c = "atomic.resize" -> <<{I(1), I(3), F(2), F(1), Str, None, Lst(<<1>>)}, {I(0), I(2), F(2), Str, None}>>
    [] c \in {"atomic.evaluate", "mol.evaluate"} -> <<Shapes(NB), Shapes(NB) \cup {Arr(<<2 * NB>>)}, Bools>>
    [] c = "mol.init" -> <<{Arr(<<5>>), Arr(<<5, 3>>), Arr(<<5, 2>>), Arr(<<5, 1>>)},
                           {Arr(<<2, 3>>), Arr(<<2, 2>>), Arr(<<2, 1>>), Arr(<<3, 3>>), Arr(<<1, 3>>), Arr(<<2>>), Arr(<<6>>), Arr(<<2, 3, 1>>), Arr(<<>>), Lst(<<2, 3>>), None},
                           {Arr(<<2, 2>>), Arr(<<3, 2>>), Arr(<<1, 2>>), Arr(<<2, 3>>), Arr(<<2, 1>>), Arr(<<2>>), Arr(<<4>>), Arr(<<>>)}
                             \cup {Val("arr", v, <<2, 2>>) : v \in {0, -1, 2}}, Bools>>
    [] c = "mol.assign" -> <<{I(v) : v \in {0, 1, 2, NB, NB + 1, 2 * NB, 99, -1, -2}}>>
    [] c = "fpi.init" -> <<{Grid(v) : v \in 0..6}, {Dens(v) : v \in {0, 1, 2, 4}}, {MPts(0)}, Bools, {None, F(5)}>>
    [] c = "scipy.init" -> <<{Grid(v) : v \in 0..6}, {Dens(v) : v \in {0, 1, 3, 4}}, {MPts(v) : v \in 0..3}, Bools, {Meth(v) : v \in 0..4}, {Meas(v) : v \in 0..5}>>
    [] c = "fpi.run" -> <<Shapes(NB) \cup {Lst(<<NB>>), None}, Shapes(NB) \cup {Lst(<<NB>>), None}, Bools, Bools>>
    [] c = "scipy.run" -> <<{Arr(<<NB>>), Arr(<<NB - 1>>), Arr(<<NB + 1>>)}, {Arr(<<NB>>), Arr(<<NB - 1>>), Arr(<<NB + 1>>)}, Bools, Bools, Bools, {Meth(0), Meth(2)}>>
    [] c = "scipy.model" -> <<{None, Name(0), Name(1), Name(2), Name(3)}>>
    [] c = "greedy.init" -> <<{Val("fit", v, <<>>) : v \in 0..4}, {Choice(v) : v \in 0..6}>>
    [] c = "greedy.ls" -> <<{Grid(v) : v \in {0, 1, 5, 6}}, {Dens(v) : v \in {0, 1, 3, 4}}, {Choice(v) : v \in 0..5}, {Meth(v) : v \in 0..4}, Bools, Bools>>
    [] c = "greedy.kl" -> <<{Grid(v) : v \in {0, 1, 5, 6}}, {Dens(v) : v \in {0, 1, 2, 4}}, {Choice(v) : v \in 0..5}, Bools, {None, F(5)}>>
    [] c \in {"greedy.run.ls", "greedy.run.kl"} -> <<{F(2), F(1), F(0), F(-1), I(2), I(0), I(-1), Str, None, NpI(2), Lst(<<1>>)}>>
    [] c = "slater.init" -> <<{Elem(v) : v \in 0..9}, Bools, Bools>>
    [] c \in {"slater.radial", "slater.phi"} -> <<{Arr(<<4>>), Arr(<<1>>), Arr(<<4, 1>>), Arr(<<2, 2>>)}>>
    [] c = "slater.density" -> <<{Name(v) : v \in 0..7}>>
    [] c = "ugbs" -> <<{Name(0), Name(1), I(5), None, Lst(<<1>>)}>>

(* elements with the file asked for: v = 0 neither ion, 1 anion only, 2 cation only, 3 both, 4 heavy without ions *)
ElemBad(e, an, ca) ==
  If(e.v >= 5 /\ e.v <= 8, T) \cup If(an.v = 1 /\ ca.v = 1, V) \cup
  (IF e.v \in 5..8 THEN {} ELSE
     If(an.v = 1 /\ ~(e.v \in {1, 3}), V) \cup If(ca.v = 1 /\ ~(e.v \in {2, 3}), V)
     \cup (IF e.v = 9 THEN {V, "FileNotFoundError"} ELSE {}))

Bad(c, a) ==
  CASE c = "base.init" -> If(~Nd(a[1], 1), T)
    [] c = "base.integrate" -> If(a[1].s # <<GridLen>>, V)
    [] c = "cubic.integrate" -> If(a[1].s # <<CubeLen>>, V)
    [] c = "uniform" -> If(~IsInt(a[1]) \/ a[1].v <= 0, T) \cup If(~IsNum(a[2]), T) \cup If(~IsNum(a[3]), T)
                        \cup If(IsNum(a[2]) /\ IsNum(a[3]) /\ a[3].v <= a[2].v, V)
    [] c = "clenshaw" -> If(~IsInt(a[1]) \/ a[1].v <= 0, T) \cup If(~IsInt(a[2]) \/ a[2].v < 0, T) \cup If(~IsInt(a[3]) \/ a[3].v < 0, T)
                         \cup If(a[4].t \in {"int", "float", "str"}, T) \cup If(a[5].t # "bool", T)
    [] c \in {"sd", "kl", "ts"} -> If(~IsArr(a[2]), V) \cup If(~Nd(a[1], 1), V) \cup If(IsArr(a[1]) /\ IsArr(a[2]) /\ a[1].s # a[2].s, V)
                                   \cup If(a[3].t # "bool", T)
    [] c = "tsallis.init" -> If(a[1].t # "near" /\ a[1].v < 0, V) \cup If(a[1].t \notin {"near", "tiny"} /\ a[1].v = 1, V)
                             \cup If(a[1].t = "near" /\ (a[1].v > 10 \/ a[1].v < -10), V)
    [] c = "atomic.init" -> If(~IsArr(a[1]), T) \cup If(~IsIntegral(a[3]) \/ a[3].v < 0, T) \cup If(~IsIntegral(a[4]) \/ a[4].v < 0, T)
                            \cup If(IsIntegral(a[3]) /\ IsIntegral(a[4]) /\ a[3].v + a[4].v = 0, V)
                            \cup If(a[2].t # "none" /\ ~Nd(a[2], 1), V)
                            \cup If(Nd(a[2], 1) /\ IsArr(a[1]) /\ a[2].s[1] # (IF Len(a[1].s) = 1 THEN 1 ELSE a[1].s[2]), V)
    [] c = "atomic.resize" -> If(~IsInt(a[1]), T) \cup If(~IsInt(a[2]), T)
    [] c \in {"atomic.evaluate", "mol.evaluate"} -> If(a[1].s # <<NB>>, V) \cup If(a[2].s # <<NB>>, V)
    [] c = "mol.init" -> If(~Nd(a[2], 2), V) \cup If(~Nd(a[3], 2) \/ (Nd(a[3], 2) /\ a[3].s[2] # 2), V)
                         \cup If(Nd(a[2], 2) /\ Nd(a[3], 2) /\ a[2].s[1] # a[3].s[1], V)
                         \cup If(Nd(a[2], 2) /\ a[2].s[2] # (IF Len(a[1].s) = 1 THEN 1 ELSE a[1].s[2]), V)
                         \cup If(a[3].v = 0, V) \cup If(a[3].v \in {-1, 2}, T)
    [] c = "mol.assign" -> If(a[1].v >= NB \/ a[1].v < 0, V)
    [] c = "fpi.init" -> GridBad(a[1]) \cup If(a[2].v \in {1, 4}, V) \cup Sph(a[1], a[4]) \cup If(a[2].v = 2, R)
    [] c = "scipy.init" -> GridBad(a[1]) \cup If(a[2].v \in {1, 3, 4}, V) \cup If(a[3].v >= 2, V) \cup Sph(a[1], a[4])
                           \cup If(a[5].v >= 3, V) \cup If(a[6].v >= 3, T)
    [] c = "fpi.run" -> If(~IsArr(a[1]), T) \cup If(~IsArr(a[2]), T) \cup If(IsArr(a[1]) /\ a[1].s # <<NB>>, V) \cup If(IsArr(a[2]) /\ a[2].s # <<NB>>, V)
                        \cup If(a[3].v = 0 /\ a[4].v = 0, V)
    [] c = "scipy.run" -> If(a[1].s # <<NB>>, V) \cup If(a[2].s # <<NB>>, V) \cup If(a[3].v = 0 /\ a[4].v = 0, V)
    [] c = "scipy.model" -> If(a[1].t = "name" /\ a[1].v >= 2, V)
    [] c = "greedy.init" -> If(a[1].v >= 2, T) \cup If(a[2].v >= 3, V)
    [] c = "greedy.ls" -> If(a[2].v \in {1, 3, 4}, V) \cup If(a[3].v >= 3, V) \cup If(a[4].v >= 3, V) \cup Sph(a[1], a[5])
    [] c = "greedy.kl" -> If(a[2].v \in {1, 4}, V) \cup If(a[2].v = 2, R) \cup If(a[3].v >= 3, V) \cup Sph(a[1], a[4])
    [] c \in {"greedy.run.ls", "greedy.run.kl"} -> If(a[1].t # "float", T) \cup If(a[1].t = "float" /\ a[1].v <= 0, V)
    [] c = "slater.init" -> ElemBad(a[1], a[2], a[3])
    [] c \in {"slater.radial", "slater.phi"} -> If(~Nd(a[1], 1), V)
    [] c = "slater.density" -> If(a[1].v >= 3, V)
    [] c = "ugbs" -> If(a[1].t # "name", S)

Product(d) ==
  CASE Len(d) = 1 -> {<<x>> : x \in d[1]}
    [] Len(d) = 2 -> d[1] \X d[2]
    [] Len(d) = 3 -> d[1] \X d[2] \X d[3]
    [] Len(d) = 4 -> d[1] \X d[2] \X d[3] \X d[4]
    [] Len(d) = 5 -> d[1] \X d[2] \X d[3] \X d[4] \X d[5]
    [] Len(d) = 6 -> d[1] \X d[2] \X d[3] \X d[4] \X d[5] \X d[6]

Start == <<2, 1>>
Init == call = "none" /\ args = <<>> /\ bad = {} /\ size = Start /\ sizeBefore = Start

(* the state of the object the call is made on: only an accepted resize changes it *)
Effect(c, a, s) == IF c = "atomic.resize" THEN <<a[1].v, a[2].v>> ELSE s

Do(c, a) ==
  /\ call' = c /\ args' = a
  /\ bad' = Bad(c, a)
  /\ sizeBefore' = size
  /\ size' = IF bad' = {} THEN Effect(c, a, size) ELSE size

Next == call = "none" /\ \E c \in Calls : \E a \in Product(Dom(c)) : Do(c, a)
Spec == Init /\ [][Next]_vars

RejectedKeepsState == bad # {} => size = sizeBefore
(* every call can be made, and each of its arguments alone can make it fail *)
Live == call = "none" => \A c \in Calls :
  /\ \E a \in Product(Dom(c)) : Bad(c, a) = {}
  /\ \E a \in Product(Dom(c)) : Bad(c, a) # {}
KindsKnown == bad \subseteq {T, V, A, R, S, "FileNotFoundError"}

Emit == call # "none" => PrintT("@@" \o ToJson([call |-> call, args |-> args, bad |-> bad]))
=============================================================================
