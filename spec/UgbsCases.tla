------------------------------- MODULE UgbsCases -------------------------------
(* Every small table: entries of two symbols, one a prefix of the other, and   *)
(* lines that are no entries in between.                                       *)
EXTENDS Ugbs, Json
CONSTANTS MaxEntries, Syms, Fillers
VARIABLES ents, i, s
vars == <<ents, i, s>>
(* spellings *)
Spell(e) == CASE e = "h" -> {"h", "H"} [] e = "he" -> {"he", "He", "HE", "hE"} [] e = "s" -> {"s", "S"} [] e = "se" -> {"se", "Se", "SE"}
Same(w, e) == w \in Spell(e)
Filler(k) == CASE k = 0 -> <<>> [] k = 1 -> <<<<>>>> [] k = 2 -> <<<<"#BASIS", "SET:", "(2s)">>>> [] k = 3 -> <<<<"#", "H", "S">>, <<>>>>
RECURSIVE Lines(_, _)
Lines(q, k) == IF k > Len(q) THEN <<<<"END">>>>
               ELSE Filler(q[k].fill) \o <<<<q[k].w, q[k].l>>, <<"x" \o ToString(k), "1.0000000">>>> \o Lines(q, k + 1)
Entry == [w : UNION {Spell(e) : e \in Syms}, l : {"S", "P", "D", "F"}, fill : Fillers]
Init == ents \in UNION {[1..n -> Entry] : n \in 0..MaxEntries} /\ i = 0 /\ s = [e \in Syms |-> Start]
L == <<<<"BASIS", "\"ao", "basis\"", "PRINT">>>> \o Lines(ents, 1)
Next == i < Len(L) /\ i' = i + 1 /\ ents' = ents /\ s' = [e \in Syms |-> Step(s[e], L[i'], e, Same)]
Spec == Init /\ [][Next]_vars
Agree == i = Len(L) => \A e \in Syms : /\ s[e].want = ""
                                       /\ \A l \in {"S", "P", "D", "F"} : s[e].d[l] = Exponents(L, e, l, Same)
(* nothing is invented or lost *)
Complete == i = Len(L) => Len(ents) = Len(SelectSeq(L, IsHead))
Emit == i = Len(L) => PrintT("@@" \o ToJson([lines |-> L, want |-> [e \in Syms |-> s[e].d]]))
=============================================================================
