----------------------------- MODULE ModelCases -----------------------------
(* Enumerates the model configurations and emits, for each, the expressions *)
(* the implementation must agree with.                                      *)
EXTENDS Gauss, Json, FiniteSets
CONSTANTS MaxPer, MaxCenters, MaxTotal, Derivs, Extra
VARIABLE cfg        \* [b |-> sequence of <<ns,np>>, norm |-> BOOLEAN]

Lay == {l \in (0..MaxPer) \X (0..MaxPer) : l[1] + l[2] > 0}
Bases == UNION {[1..k -> Lay] : k \in 1..MaxCenters}
ExtraBases == IF Extra THEN {JsonDeserialize("extra.json")[i] : i \in 1..Len(JsonDeserialize("extra.json"))} ELSE {}
Init == cfg \in [b : {b \in Bases : NBasis(b) <= MaxTotal} \union ExtraBases, norm : BOOLEAN]
Next == FALSE /\ UNCHANGED cfg

NormInv == NormalizedToOne /\ PrefactorIsLogDerivative /\ SecondMoment
StructInv == BlocksOK(cfg.b)
DerivInv == Derivs => ColumnIsTotal(cfg.b, cfg.norm)

Emit == LET b == cfg.b  n == NBasis(b) IN
  PrintT("@@" \o ToJson([b |-> b, norm |-> cfg.norm, n |-> n,
     val |-> Value(b, cfg.norm),
     cols |-> IF Derivs THEN [j \in 1..2*n |-> Column(b, cfg.norm, j)] ELSE <<>>,
     integral |-> ModelIntegral(b, cfg.norm),
     center |-> [i \in 1..n |-> CenterOf(b, i)],
     pref |-> [i \in 1..n |-> Prefactor(TypeOf(b, i))]]))
=============================================================================
