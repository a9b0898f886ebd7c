----------------------------- MODULE GreedyConf -----------------------------
(* The optimizations a greedy object makes.  An object is constructed from   *)
(* settings, each either given or left at its documented default; then it   *)
(* resizes its model and optimizes guesses, quickly ("local") or as a        *)
(* refinement ("global"), in any order and number.  A request is resolved    *)
(* from the settings alone: the result of an optimization is that of one     *)
(* run of the inner fit with the resolved settings, whatever was asked       *)
(* before.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxLen, MaxGiven, MaxFn, Burst
(* MaxGiven: at most that many settings given, or at most that many left     *)
(* Burst: 0 for any order of requests, b for the order of a search, b-1 quick *)
(* requests and then a refinement                                            *)

Settings(k) ==
  IF k = "ls"
  THEN {"local_tol", "global_tol", "l_maxiter", "g_maxiter", "with_constraint", "method", "normalize", "integral_dens", "spherical"}
  ELSE {"l_eps_coeff", "l_eps_exp", "l_eps_obj", "g_eps_coeff", "g_eps_exp", "g_eps_obj", "l_maxiter", "g_maxiter",
        "mask_value", "integral_dens", "spherical"}
Default(k, s) ==
  CASE s = "local_tol" -> "1e-5"      [] s = "global_tol" -> "1e-8"
    [] s = "l_maxiter" -> "1000"      [] s = "g_maxiter" -> "2500"
    [] s = "with_constraint" -> "no"  [] s = "method" -> "slsqp"
    [] s = "normalize" -> "no"        [] s = "integral_dens" -> "density"
    [] s = "spherical" -> "no"        [] s = "mask_value" -> "1e-12"
    [] s = "g_eps_coeff" -> "1e-4"    [] s = "g_eps_exp" -> "1e-5"   [] s = "g_eps_obj" -> "1e-10"
    [] s = "l_eps_coeff" -> "1e-2"    [] s = "l_eps_exp" -> "1e-3"   [] s = "l_eps_obj" -> "1e-8"
(* settings of the fit itself, chosen at construction *)
FitSettings(k) == IF k = "ls" THEN {"method", "normalize", "integral_dens", "spherical"}
                  ELSE {"mask_value", "integral_dens", "spherical"}
(* settings of a single optimization: role -> setting *)
Roles(k) == IF k = "ls" THEN {"tol", "maxiter", "constraint"} ELSE {"c", "e", "d", "maxiter"}
Uses(k, mode, role) ==
  CASE role = "constraint" -> "with_constraint"
    [] role = "tol" -> (IF mode = "local" THEN "local_tol" ELSE "global_tol")
    [] role = "maxiter" -> (IF mode = "local" THEN "l_maxiter" ELSE "g_maxiter")
    [] role = "c" -> (IF mode = "local" THEN "l_eps_coeff" ELSE "g_eps_coeff")
    [] role = "e" -> (IF mode = "local" THEN "l_eps_exp" ELSE "g_eps_exp")
    [] role = "d" -> (IF mode = "local" THEN "l_eps_obj" ELSE "g_eps_obj")
(* where the run starts: exponents are always the guess's own *)
StartCoeffs(k) == IF k = "ls" THEN "least-squares" ELSE "own"

VARIABLES kind, given, ns, np, log
vars == <<kind, given, ns, np, log>>
Val(s) == IF s \in given THEN "given" ELSE Default(kind, s)
Few(S, k) == Cardinality(S) <= MaxGiven \/ Cardinality(Settings(k) \ S) <= MaxGiven
Init == /\ kind \in Kinds
        /\ given \in {S \in SUBSET Settings(kind) : Few(S, kind)}
        /\ ns = 1 /\ np = 0 /\ log = <<>>
Resolved(mode) == [r \in Roles(kind) |-> [name |-> Uses(kind, mode, r), val |-> Val(Uses(kind, mode, r))]]
Optimize(mode) ==
  /\ Len(log) < MaxLen
  /\ (IF Burst = 0 THEN TRUE ELSE (mode = "global") <=> (Len(log) % Burst = Burst - 1))
  /\ log' = Append(log, [mode |-> mode, ns |-> ns, np |-> np, start |-> StartCoeffs(kind),
                         run |-> Resolved(mode),
                         other |-> Resolved(IF mode = "local" THEN "global" ELSE "local")])   \* what it must not be
  /\ UNCHANGED <<kind, given, ns, np>>
Resize(s, p) == /\ Len(log) < MaxLen /\ <<s, p>> # <<ns, np>>
                /\ (IF log = <<>> THEN TRUE ELSE log[Len(log)].ns = ns /\ log[Len(log)].np = np)   \* one at a time
                /\ ns' = s /\ np' = p /\ UNCHANGED <<kind, given, log>>
Next == \/ \E m \in {"local", "global"} : Optimize(m)
        \/ \E s \in 1..MaxFn, p \in 0..MaxFn-1 : s + p <= MaxFn /\ Resize(s, p)
Spec == Init /\ [][Next]_vars

(* -- what a user relies on ------------------------------------------------ *)
(* equal requests have equal resolved settings, whatever came in between    *)
HistoryFree == \A i, j \in 1..Len(log) : log[i].mode = log[j].mode => log[i].run = log[j].run
(* the quick settings never leak into the refinement and vice versa         *)
Apart == \A i \in 1..Len(log) : \A r \in Roles(kind) :
  LET n == log[i].run[r].name IN
  /\ n \in {"l_maxiter", "local_tol", "l_eps_coeff", "l_eps_exp", "l_eps_obj"} => log[i].mode = "local"
  /\ n \in {"g_maxiter", "global_tol", "g_eps_coeff", "g_eps_exp", "g_eps_obj"} => log[i].mode = "global"
(* every setting is used, either by the fit or by one of the two kinds of run *)
NoneIgnored == Settings(kind) = FitSettings(kind) \cup {Uses(kind, m, r) : m \in {"local", "global"}, r \in Roles(kind)}
(* a given value is the one that is used *)
GivenUsed == \A i \in 1..Len(log) : \A r \in Roles(kind) : (log[i].run[r].val = "given") <=> (log[i].run[r].name \in given)
Emit == Len(log) = MaxLen =>
  PrintT("@@" \o ToJson([kind |-> kind, fit |-> [s \in FitSettings(kind) |-> Val(s)],
                         all |-> [s \in Settings(kind) |-> Val(s)], log |-> log]))
=============================================================================
