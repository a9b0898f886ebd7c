-------------------------------- MODULE Slater --------------------------------
(* Reading an atomic Slater wave-function file: a machine that consumes one   *)
(* line (a sequence of words, "=" being a word of its own) per step.          *)
EXTENDS Integers, Sequences, Config
Empty == [energy |-> "", kinetic |-> "", potential |-> "", orbitals |-> <<>>, energies |-> <<>>, cusps |-> <<>>,
          exps |-> [l \in {"S", "P", "D", "F"} |-> <<>>], numbers |-> [l \in {"S", "P", "D", "F"} |-> <<>>],
          labels |-> [l \in {"S", "P", "D", "F"} |-> <<>>],
          coeffs |-> <<>>]       \* coeffs[k]: column of the k-th orbital of the file
IsLetter(w) == w \in {"S", "P", "D", "F"}
IsHeader(line) == Len(line) >= 2 /\ IsLetter(line[1])
IsRow(line) == Len(line) >= 3 /\ \E n \in 1..9 : line[1] = ToString(n) \o "S" \/ line[1] = ToString(n) \o "P"
                                                \/ line[1] = ToString(n) \o "D" \/ line[1] = ToString(n) \o "F"
Start == [pc |-> "title", shell |-> "", first |-> 1, d |-> Empty]
Header(s, line) ==
  [s EXCEPT !.pc = "energies", !.shell = line[1], !.first = Len(s.d.orbitals) + 1,
            !.d.orbitals = @ \o Tail(line), !.d.coeffs = @ \o [i \in 1..Len(line)-1 |-> <<>>]]
Row(s, line) ==
  LET l == s.shell IN
  [s EXCEPT !.d.exps[l] = Append(@, line[2]), !.d.numbers[l] = Append(@, SubSeq(line[1], 1, 1)),
            !.d.labels[l] = Append(@, line[1]),
            !.d.coeffs = [k \in 1..Len(@) |-> IF k < s.first THEN @[k] ELSE Append(@[k], line[2 + k - s.first + 1])]]
Step(s, line, heavy) ==
  CASE s.pc = "title"  -> [s EXCEPT !.pc = "energy"]
    [] s.pc = "energy" -> IF Len(line) >= 3 /\ line[1] = "E" /\ line[2] = "=" THEN [s EXCEPT !.pc = "virial", !.d.energy = line[3]] ELSE s
    [] s.pc = "virial" -> IF Len(line) >= 6 THEN [s EXCEPT !.pc = "seek", !.d.kinetic = line[3], !.d.potential = line[6]]
                          ELSE [s EXCEPT !.pc = "error"]
    [] s.pc = "seek"   -> IF IsHeader(line) THEN Header(s, line) ELSE s
    [] s.pc = "energies" -> [s EXCEPT !.pc = IF heavy THEN "rows" ELSE "cusps", !.d.energies = @ \o Tail(line)]
    [] s.pc = "cusps"  -> [s EXCEPT !.pc = "rows", !.d.cusps = @ \o Tail(line)]
    [] s.pc = "rows"   -> IF IsRow(line) THEN Row(s, line) ELSE IF IsHeader(line) THEN Header(s, line)
                          ELSE IF line = <<>> THEN [s EXCEPT !.pc = "end"] ELSE [s EXCEPT !.pc = "error"]
    [] OTHER -> s
(* what must hold of the data of a completely read file *)
Shapes(d, heavy) ==
  /\ Len(d.energies) = Len(d.orbitals) /\ Len(d.coeffs) = Len(d.orbitals)
  /\ Len(d.cusps) = IF heavy THEN 0 ELSE Len(d.orbitals)
  /\ \A k \in 1..Len(d.orbitals) : Len(d.coeffs[k]) = Len(d.exps[LOf(d.orbitals[k])])
  /\ \A l \in {"S", "P", "D", "F"} : Len(d.exps[l]) = Len(d.numbers[l])
=============================================================================
