-------------------------------- MODULE Merge --------------------------------
(* Merging functions with close exponents.  Exponents and the tolerance in  *)
(* integer units.  An outcome names, for every kept function, its position  *)
(* in the input and the set of positions whose coefficients it carries.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxLen, MaxE
VARIABLE cs
Abs(x) == IF x < 0 THEN -x ELSE x
Close(e, i, j, eps) == Abs(e[i] - e[j]) < eps
(* kept: exactly those not close to an earlier kept one *)
RECURSIVE KeptUpTo(_, _, _)
KeptUpTo(e, eps, n) == IF n = 0 THEN <<>> ELSE
  LET k == KeptUpTo(e, eps, n - 1) IN
  IF \E m \in 1..Len(k) : Close(e, k[m], n, eps) THEN k ELSE Append(k, n)
Kept(e, eps) == KeptUpTo(e, eps, Len(e))

(* is (kept, carries) a legal outcome? *)
Legal(e, eps, kept, carries) ==
  /\ kept = Kept(e, eps)
  /\ Len(carries) = Len(kept)
  /\ \A m \in 1..Len(kept) : \E i \in 1..Len(carries[m]) : carries[m][i] = kept[m]
  /\ \A j \in 1..Len(e) : Cardinality({m \in 1..Len(kept) : \E i \in 1..Len(carries[m]) : carries[m][i] = j}) = 1
  /\ \A m \in 1..Len(kept) : \A i \in 1..Len(carries[m]) :
        carries[m][i] = kept[m] \/ Close(e, kept[m], carries[m][i], eps)

(* the same when only the coefficients are known: some assignment explains the sums *)
RECURSIVE Explains(_, _, _, _, _, _)
Explains(e, eps, kept, c, j, rest) ==
  IF j = 0 THEN \A m \in 1..Len(kept) : rest[m] = 0
  ELSE \E m \in 1..Len(kept) :
         /\ IF \E k \in 1..Len(kept) : kept[k] = j THEN kept[m] = j ELSE Close(e, kept[m], j, eps)
         /\ Explains(e, eps, kept, c, j - 1, [rest EXCEPT ![m] = @ - c[j]])
LegalSums(e, eps, c, eout, cout) ==
  LET k == Kept(e, eps) IN
  /\ Len(eout) = Len(k) /\ Len(cout) = Len(k)
  /\ \A m \in 1..Len(k) : eout[m] = e[k[m]]
  /\ Explains(e, eps, k, c, Len(e), cout)

File == IF Mode # "gen" THEN JsonDeserialize("out.json") ELSE <<>>
Init == cs \in (IF Mode = "gen" THEN {[e |-> e, eps |-> p] : e \in UNION {[1..n -> 1..MaxE] : n \in 1..MaxLen}, p \in 1..3}
                ELSE {File[i] : i \in 1..Len(File)})
Next == FALSE /\ UNCHANGED cs
(* what a user relies on, of the kept set the rule determines *)
Apart == LET k == Kept(cs.e, cs.eps) IN \A a, b \in 1..Len(k) : a # b => ~Close(cs.e, k[a], k[b], cs.eps)
Covers == LET k == Kept(cs.e, cs.eps) IN \A j \in 1..Len(cs.e) : \E m \in 1..Len(k) : k[m] = j \/ Close(cs.e, k[m], j, cs.eps)
Ordered == LET k == Kept(cs.e, cs.eps) IN \A m \in 1..Len(k)-1 : k[m] < k[m+1]
FirstKept == Kept(cs.e, cs.eps)[1] = 1
Emit == PrintT("@@" \o ToJson(IF Mode = "gen" THEN [e |-> cs.e, eps |-> cs.eps, kept |-> Kept(cs.e, cs.eps)]
                               ELSE [id |-> cs.id, ok |-> IF Mode = "sums" THEN LegalSums(cs.e, cs.eps, cs.c, cs.eout, cs.cout)
                                                        ELSE Legal(cs.e, cs.eps, cs.kept, cs.carries)]))
=============================================================================
