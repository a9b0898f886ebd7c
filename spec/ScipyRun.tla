------------------------------ MODULE ScipyRun ------------------------------
(* One run of the general optimizer.  The optimizer itself is environment:  *)
(* it receives a start vector, bounds and possibly the constraint, visits   *)
(* points, and returns a point with a verdict.  Parameters are symbols.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, More
VARIABLES cfg, pc, x, verdict, out
vars == <<cfg, pc, x, verdict, out>>

Modes == {"both", "coeffs", "exps"}
Sym(kind, n) == [i \in 1..n |-> <<kind, i>>]
C0(n) == Sym("c", n)
E0(n) == Sym("e", n)
Start(m, n) == CASE m = "both" -> C0(n) \o E0(n) [] m = "coeffs" -> C0(n) [] m = "exps" -> E0(n)
Visited(m, n) == [i \in 1..Len(Start(m, n)) |-> <<"x", i>>]

(* what the environment is asked to do: the optimizer's own name for the    *)
(* caller's tolerance and limit, the lower bound of every optimized         *)
(* parameter, and whether the norm is a constraint                          *)
Ask(c) == [algorithm |-> c.method, start |-> Start(c.mode, c.n),
           options |-> IF c.method = "slsqp" THEN [ftol |-> "tol", maxiter |-> "maxiter"] ELSE [xtol |-> "tol", maxiter |-> "maxiter"],
           lower |-> [i \in 1..Len(Start(c.mode, c.n)) |-> <<1, -12>>],      \* 10^-12
           fixed |-> CASE c.mode = "both" -> "none" [] c.mode = "coeffs" -> "fixed_expons" [] c.mode = "exps" -> "fixed_coeffs",
           norm |-> c.con]

NoOut == [coeffs |-> <<>>, exps |-> <<>>, success |-> FALSE, jac |-> 0, warnings |-> 0]
Init == /\ cfg \in [mode : Modes, n : 1..MaxN \union More, method : {"slsqp", "trust-constr"}, con : BOOLEAN]
        /\ pc = "call" /\ x = Start(cfg.mode, cfg.n) /\ verdict = FALSE /\ out = NoOut
(* the environment: the start itself (no progress) or another point; any verdict *)
Optimize == /\ pc = "call"
            /\ x' \in {x, Visited(cfg.mode, cfg.n)}
            /\ verdict' \in BOOLEAN
            /\ pc' = "assemble" /\ UNCHANGED <<cfg, out>>
Assemble == /\ pc = "assemble"
            /\ LET n == cfg.n IN
               out' = [coeffs |-> IF cfg.mode = "exps" THEN C0(n) ELSE SubSeq(x, 1, n),
                       exps |-> IF cfg.mode = "coeffs" THEN E0(n)
                                ELSE IF cfg.mode = "both" THEN SubSeq(x, n + 1, 2*n) ELSE x,
                       success |-> verdict, jac |-> Len(x), warnings |-> IF verdict THEN 0 ELSE 1]   \* a failure is told once
            /\ pc' = "done" /\ UNCHANGED <<cfg, x, verdict>>
Next == Optimize \/ Assemble
Spec == Init /\ [][Next]_vars

Done == pc = "done"
Sizes == Done => Len(out.coeffs) = cfg.n /\ Len(out.exps) = cfg.n /\ out.jac = Len(Start(cfg.mode, cfg.n))
FixedAsGiven == Done => /\ cfg.mode = "exps" => out.coeffs = C0(cfg.n)
                        /\ cfg.mode = "coeffs" => out.exps = E0(cfg.n)
NoProgressIsStart == Done /\ x = Start(cfg.mode, cfg.n) => out.coeffs = C0(cfg.n) /\ out.exps = E0(cfg.n)
(* every setting of the caller reaches the optimizer, none twice *)
AllAsked == LET o == Ask(cfg).options IN \A v \in {"tol", "maxiter"} : \E k \in DOMAIN o : o[k] = v /\ \A j \in DOMAIN o : o[j] = v => j = k
Faithful == Done => out.success = verdict /\ (out.warnings > 0 <=> ~verdict)
Emit == Done => PrintT("@@" \o ToJson([cfg |-> cfg, start |-> Start(cfg.mode, cfg.n), ask |-> Ask(cfg), x |-> x, verdict |-> verdict, out |-> out]))
=============================================================================
