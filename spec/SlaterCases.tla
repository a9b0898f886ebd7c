------------------------------ MODULE SlaterCases ------------------------------
(* Every file within bounds, rendered from an abstract atom and read back.     *)
EXTENDS Slater, Json
CONSTANTS NS, NP, ND, NF, Prefixes, Pats, Lays
(* NS..NF: sets of numbers of orbitals per shell letter; Prefixes: subset of   *)
(* {"", "K", "KL", "KLM", "KLMN", "XE", "RN"}; Pats, Lays: variants            *)
VARIABLES f, i, s
vars == <<f, i, s>>
Prefix(x) == CASE x = "" -> <<>> [] x = "K" -> <<<<"K", 2>>>> [] x = "KL" -> <<<<"K", 2>>, <<"L", 8>>>>
               [] x = "KLM" -> <<<<"K", 2>>, <<"L", 8>>, <<"M", 18>>>>
               [] x = "KLMN" -> <<<<"K", 2>>, <<"L", 8>>, <<"M", 18>>, <<"N", 32>>>>
               [] x = "XE" -> <<<<"[XE]", 0>>>> [] x = "RN" -> <<<<"[RN]", 0>>>>
Count(a, l) == a.n[LIndex(l)]
Listed(a) == LET o(k) == [j \in 1..a.n[k] |-> Orb(j + k - 1, Letters[k])] IN o(1) \o o(2) \o o(3) \o o(4)
PrefixOrbs(x) == LET e == Orbitals(Prefix(x)) IN {e[k][1] : k \in 1..Len(e)}
Range(q) == {q[k] : k \in 1..Len(q)}
(* open orbitals hold 1, half or all of what fits, in a pattern *)
Filling(o, p) == LET c == Capacity(LOf(o)) IN
  CASE (p + NOf(o) + LIndex(LOf(o))) % 3 = 0 -> 1 [] (p + NOf(o) + LIndex(LOf(o))) % 3 = 1 -> (c + 1) \div 2 [] OTHER -> c
Open(a) == SelectSeq(Listed(a), LAMBDA o : o \notin PrefixOrbs(a.prefix))
Reverse(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
(* heavy files may mention an empty orbital *)
Nothing(a) == IF a.heavy /\ a.pat = 2 THEN <<<<Orb(a.n[3] + 3, "D"), 0>>>> ELSE <<>>
Configuration(a) == LET o == IF a.pat = 1 THEN Reverse(Open(a)) ELSE Open(a) IN
  Prefix(a.prefix) \o Nothing(a) \o [k \in 1..Len(o) |-> <<o[k], Filling(o[k], a.pat + a.lay)>>]
(* layouts from 10 on: larger bases with principal quantum numbers up to 9 *)
Rows(a, k) == IF a.lay >= 10 THEN 4 + ((a.lay + 4 * k) % 9) ELSE 1 + ((a.lay + k) % 3)
Tok(pre, l, j) == pre \o l \o ToString(j)
NLabel(l, j, lay) == ToString(IF lay >= 10 THEN 1 + ((2 * j + lay) % 9) ELSE LIndex(l) + ((j + lay) % 3)) \o l
Blank(k) == [j \in 1..k |-> <<>>]
ShellLines(a, k) ==
  IF a.n[k] = 0 THEN <<>> ELSE
  LET l == Letters[k] os == [j \in 1..a.n[k] |-> Orb(j + k - 1, l)] IN
  <<<<l>> \o os, <<"BASIS/ORB.ENERGY">> \o [j \in 1..a.n[k] |-> "e" \o os[j]]>>
  \o (IF a.heavy THEN <<>> ELSE <<<<"CUSP">> \o [j \in 1..a.n[k] |-> "u" \o os[j]]>>)
  \o [r \in 1..Rows(a, k) |-> <<NLabel(l, r, a.lay), Tok("z", l, r)>> \o [j \in 1..a.n[k] |-> "c" \o os[j] \o "." \o ToString(r)]]
Extra == <<<<"CHARGE", "=", "q">>, <<"SYMMETRY", "SPECIES">>, <<"NUMBER", "OF", "BASIS", "FUNCTIONS">>, <<"NUMBER", "OF", "CLOSED", "SHELLS">>,
           <<"NUMBER", "OF", "OPEN", "SHELLS">>, <<"OPEN", "SHELL", "OCCUPATION", "NUMBER">>>>
Render(a) == <<<<"NAME", "CONF", "TERM">>>> \o (IF a.heavy THEN Extra ELSE Blank(a.lay % 3))
  \o <<<<"E", "=", "energy">>, <<"T", "=", "kin", "V", "=", "pot", "V/T", "=", "ratio">>>> \o Blank((a.lay + a.pat) % 4)
  \o <<<<"ORBITAL", "ENERGIES", "AND", "EXPANSION", "COEFFICIENTS">>>>
  \o ShellLines(a, 1) \o ShellLines(a, 2) \o ShellLines(a, 3) \o ShellLines(a, 4) \o Blank((a.lay \div 2) % 2)
(* the abstract content of the file *)
Content(a) == LET o == Listed(a) IN
  [energy |-> "energy", kinetic |-> "kin", potential |-> "pot", orbitals |-> o,
   energies |-> [k \in 1..Len(o) |-> "e" \o o[k]], cusps |-> IF a.heavy THEN <<>> ELSE [k \in 1..Len(o) |-> "u" \o o[k]],
   exps |-> [l \in {"S", "P", "D", "F"} |-> IF Count(a, l) = 0 THEN <<>> ELSE [r \in 1..Rows(a, LIndex(l)) |-> Tok("z", l, r)]],
   numbers |-> [l \in {"S", "P", "D", "F"} |-> IF Count(a, l) = 0 THEN <<>> ELSE [r \in 1..Rows(a, LIndex(l)) |-> SubSeq(NLabel(l, r, a.lay), 1, 1)]],
   labels |-> [l \in {"S", "P", "D", "F"} |-> IF Count(a, l) = 0 THEN <<>> ELSE [r \in 1..Rows(a, LIndex(l)) |-> NLabel(l, r, a.lay)]],
   coeffs |-> [k \in 1..Len(o) |-> [r \in 1..Rows(a, LIndex(LOf(o[k]))) |-> "c" \o o[k] \o "." \o ToString(r)]]]
Atoms == {a \in [n : NS \X NP \X ND \X NF, prefix : Prefixes, heavy : {TRUE, FALSE}, pat : Pats, lay : Lays] :
            /\ (a.n[2] = 0 => a.n[3] = 0) /\ (a.n[3] = 0 => a.n[4] = 0)
            /\ a.heavy <=> a.prefix \in {"XE", "RN"}
            /\ PrefixOrbs(a.prefix) \subseteq Range(Listed(a))}
Init == f \in Atoms /\ i = 1 /\ s = Start
Lines == Render(f)
Next == /\ s.pc \notin {"end", "error"} /\ i <= Len(Lines)
        /\ s' = Step(s, Lines[i], f.heavy) /\ i' = i + 1 /\ f' = f
Spec == Init /\ [][Next]_vars
Done == i > Len(Lines) \/ s.pc = "end"
Faithful == Done => s.d = Content(f) /\ Shapes(s.d, f.heavy)
NoError == s.pc # "error"
ConfigOK == i = 1 => /\ WellFormed(Configuration(f))
                     /\ \A o \in Range(Listed(f)) : Occ(Configuration(f), o) > 0
                     /\ LET o == Listed(f) IN Total([k \in 1..Len(o) |-> <<o[k], Occ(Configuration(f), o[k])>>]) = Electrons(Configuration(f))
Emit == Done => PrintT("@@" \o ToJson([a |-> f, lines |-> Lines, d |-> s.d, conf |-> Configuration(f),
                  occ |-> [k \in 1..Len(s.d.orbitals) |-> Occ(Configuration(f), s.d.orbitals[k])]]))
=============================================================================
