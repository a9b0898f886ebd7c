-------------------------------- MODULE Config --------------------------------
(* Electron configurations.  A configuration is a sequence of <<label, number>>: *)
(* an orbital such as <<"3D", 5>>, an abbreviated closed shell <<"K", 2>> or a    *)
(* noble-gas core <<"[XE]", 0>>.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Letters == <<"S", "P", "D", "F">>
LIndex(l) == CHOOSE i \in 1..4 : Letters[i] = l
Capacity(l) == 2 * (2 * LIndex(l) - 1)
Orb(n, l) == ToString(n) \o l
NOf(o) == CHOOSE n \in 1..9 : ToString(n) = SubSeq(o, 1, 1)
LOf(o) == SubSeq(o, 2, 2)
ShellN(x) == CASE x = "K" -> 1 [] x = "L" -> 2 [] x = "M" -> 3 [] x = "N" -> 4
IsShell(x) == x \in {"K", "L", "M", "N"}
Xe == <<<<"K", 2>>, <<"L", 8>>, <<"M", 18>>, <<"4S", 2>>, <<"4P", 6>>, <<"5S", 2>>, <<"4D", 10>>, <<"5P", 6>>>>
Rn == Xe \o <<<<"4F", 14>>, <<"6S", 2>>, <<"5D", 10>>, <<"6P", 6>>>>
RECURSIVE Expand(_)
Expand(c) == IF c = <<>> THEN <<>>
             ELSE LET h == Head(c) t == Expand(Tail(c)) IN
                  CASE h[1] = "[XE]" -> Xe \o t
                    [] h[1] = "[RN]" -> Rn \o t
                    [] IsShell(h[1]) -> [l \in 1..ShellN(h[1]) |-> <<Orb(ShellN(h[1]), Letters[l]), Capacity(Letters[l])>>] \o t
                    [] OTHER -> <<h>> \o t
(* expanding twice replaces the closed shells inside the cores *)
Orbitals(c) == Expand(Expand(c))
Occ(c, o) == LET e == Orbitals(c) I == {i \in 1..Len(e) : e[i][1] = o} IN
             IF I = {} THEN 0 ELSE e[CHOOSE i \in I : TRUE][2]
RECURSIVE Total(_)
Total(e) == IF e = <<>> THEN 0 ELSE Head(e)[2] + Total(Tail(e))
Electrons(c) == Total(Orbitals(c))
(* every orbital is mentioned once and holds no more than its capacity *)
WellFormed(c) == LET e == Orbitals(c) IN
  /\ \A i, j \in 1..Len(e) : i # j => e[i][1] # e[j][1]
  /\ \A i \in 1..Len(e) : e[i][2] <= Capacity(LOf(e[i][1]))
ASSUME Electrons(<<<<"[XE]", 0>>>>) = 54 /\ Electrons(<<<<"[RN]", 0>>>>) = 86
ASSUME WellFormed(<<<<"[RN]", 0>>>>)
=============================================================================
