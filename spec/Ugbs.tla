--------------------------------- MODULE Ugbs ---------------------------------
(* The table of universal Gaussian basis exponents: lines of words.  An entry  *)
(* is a head <<symbol, shell>> followed by a line whose first word is the      *)
(* exponent; every other line (comments, blanks, keywords) is skipped.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Shells == <<"S", "P", "D", "F">>
IsShell(w) == w \in {"S", "P", "D", "F"}
IsHead(line) == Len(line) = 2 /\ IsShell(line[2])
(* same(w, e): the word w is a spelling of the symbol e *)
Entries(L, e, l, same(_, _)) ==
  SelectSeq([i \in 1..Len(L)-1 |-> i], LAMBDA i : IsHead(L[i]) /\ L[i][2] = l /\ same(L[i][1], e))
Exponents(L, e, l, same(_, _)) == LET h == Entries(L, e, l, same) IN [k \in 1..Len(h) |-> L[h[k] + 1][1]]
(* the same as a machine reading one line per step *)
Start == [want |-> "", d |-> [l \in {"S", "P", "D", "F"} |-> <<>>]]
Step(s, line, e, same(_, _)) ==
  IF s.want # "" THEN [want |-> "", d |-> [s.d EXCEPT ![s.want] = Append(@, line[1])]]
  ELSE IF IsHead(line) /\ same(line[1], e) THEN [s EXCEPT !.want = line[2]] ELSE s
=============================================================================
