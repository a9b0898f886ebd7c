-------------------------------- MODULE Tables --------------------------------
(* The shipped tables of fitted parameters (tables.json, numbers as words):    *)
(* loading an entry from either format gives the same well-formed model.       *)
EXTENDS Gauss, Json
VARIABLES t, e, fmt, model
vars == <<t, e, fmt, model>>
T == JsonDeserialize("tables.json")      \* <<[table, entries: <<[el, json, npz]>>, extra]>>
None == [num_s |-> 0, num_p |-> 0, coeffs |-> <<>>, exps |-> <<>>]
Init == /\ t \in 1..Len(T) /\ e \in 1..Len(T[t].entries)
        /\ fmt \in {"json", "npz"} /\ model = None
Load == model = None /\ model' = T[t].entries[e][fmt] /\ UNCHANGED <<t, e, fmt>>
Next == Load
Spec == Init /\ [][Next]_vars
Positive(w) == SubSeq(w, 1, 1) # "-" /\ w # "0.0" /\ w # "nan" /\ w # "inf"
N == model.num_s + model.num_p
Sizes == Len(model.coeffs) = N /\ Len(model.exps) = N
Signs == (\A i \in 1..Len(model.coeffs) : Positive(model.coeffs[i])) /\ (\A i \in 1..Len(model.exps) : Positive(model.exps[i]))
FormatsAgree == model # None => T[t].entries[e].json = T[t].entries[e].npz
(* what a normalized model integrates to is the sum of its coefficients *)
Lay == <<<<model.num_s, model.num_p>>>>
Coefs == SumE([i \in 1..N |-> C(i)])
IntegralIsSum == model # None => ModelIntegral(Lay, TRUE) = Coefs
Emit == model # None /\ fmt = "json" => PrintT("@@" \o ToJson([table |-> T[t].table, el |-> T[t].entries[e].el, num_s |-> model.num_s,
          num_p |-> model.num_p, sizes |-> Sizes, signs |-> Signs, agree |-> T[t].entries[e].json = T[t].entries[e].npz,
          integral |-> Coefs, value |-> Value(Lay, TRUE)]))
=============================================================================
