------------------------------ MODULE FitCases ------------------------------
(* Emits, for every model configuration within bounds, every quantity of    *)
(* Fit in the configurations selected by What.                              *)
EXTENDS Fit, Json
CONSTANTS MaxPer, MaxCenters, MaxTotal, What
VARIABLE cfg

Lay == {l \in (0..MaxPer) \X (0..MaxPer) : l[1] + l[2] > 0}
Bases == {b \in UNION {[1..k -> Lay] : k \in 1..MaxCenters} : NBasis(b) <= MaxTotal}
(* larger bases: one centre with many functions, many centres *)
Big == { << <<12, 0>> >>, << <<5, 6>> >>, << <<0, 9>> >>, << <<4, 2>>, <<0, 3>>, <<2, 0>> >>,
         << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>, <<0, 1>> >>, << <<10, 7>> >>,
         << <<1, 0>>, <<1, 0>>, <<0, 1>>, <<1, 0>>, <<1, 0>>, <<1, 1>>, <<1, 0>> >> }
Is(kind) == What = kind \/ What = kind \o "+"
Chosen == IF What \in {"step+", "opt+"} THEN Big ELSE Bases
BN == [b : Chosen, norm : BOOLEAN, sph : BOOLEAN]
Init ==
  CASE What = "perf" -> cfg \in [sph : BOOLEAN]
    [] Is("step") -> cfg \in BN
    [] Is("opt")  -> cfg \in [b : Chosen, norm : BOOLEAN, sph : BOOLEAN, m : Names, mode : Modes]
Next == FALSE /\ UNCHANGED cfg

ModesPartition == Is("opt") =>
  LET b == cfg.b  n == NBasis(b) IN
  FreeCols(b, "both") = FreeCols(b, "coeffs") \o FreeCols(b, "exps")

Emit ==
  CASE What = "perf" -> PrintT("@@" \o ToJson([sph |-> cfg.sph, norm |-> DensityNorm(cfg.sph), perf |-> Performance(cfg.sph)]))
    [] Is("step") -> LET b == cfg.b  n == NBasis(b) IN
         PrintT("@@" \o ToJson([b |-> b, norm |-> cfg.norm, sph |-> cfg.sph, n |-> n, val |-> Value(b, cfg.norm),
           newc |-> [i \in 1..n |-> NewCoeff(b, cfg.norm, cfg.sph, i)],
           newa |-> [i \in 1..n |-> NewExpon(b, cfg.norm, cfg.sph, i)], lam |-> Lambda(cfg.sph)]))
    [] Is("opt") -> LET b == cfg.b  n == NBasis(b) IN
         PrintT("@@" \o ToJson([b |-> b, norm |-> cfg.norm, sph |-> cfg.sph, n |-> n, m |-> cfg.m, mode |-> cfg.mode,
           val |-> Value(b, cfg.norm), obj |-> Objective(cfg.m, cfg.sph),
           grad |-> Gradient(cfg.m, b, cfg.norm, cfg.sph, cfg.mode), cons |-> Constraint(cfg.sph),
           cols |-> LET fc == FreeCols(b, cfg.mode) IN [k \in 1..Len(fc) |-> Column(b, cfg.norm, fc[k])]]))
=============================================================================
