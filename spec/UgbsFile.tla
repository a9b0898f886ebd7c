------------------------------- MODULE UgbsFile -------------------------------
(* The shipped table (table.json) read for every symbol (symbols.json).        *)
EXTENDS Ugbs, Json
VARIABLE e
Lines == JsonDeserialize("table.json")
Symbols == JsonDeserialize("symbols.json")          \* <<[id, spellings]>>
(* heads only once: the table is long *)
Heads == SelectSeq([i \in 1..Len(Lines)-1 |-> i], LAMBDA i : IsHead(Lines[i]))
SameAs(w, k) == \E j \in 1..Len(Symbols[k].spellings) : Symbols[k].spellings[j] = w
Own(k) == SelectSeq(Heads, LAMBDA i : SameAs(Lines[i][1], k))
Exps(own, l) == LET h == SelectSeq(own, LAMBDA i : Lines[i][2] = l) IN [k \in 1..Len(h) |-> Lines[h[k] + 1][1]]
Init == e \in 1..Len(Symbols)
Next == UNCHANGED e
Emit == LET own == Own(e) IN
        PrintT("@@" \o ToJson([id |-> Symbols[e].id, d |-> [l \in {"S", "P", "D", "F"} |-> Exps(own, l)]]))
=============================================================================
