------------------------------- MODULE Options -------------------------------
(* What a call means.  Every operation has options in a documented order,     *)
(* each with a documented default.  A call gives some of them by position (a  *)
(* prefix of the order) and some by name, in any order, and leaves out the    *)
(* rest.  The meaning of a call is the value of each option, and nothing of   *)
(* the way the options were given.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Small, MaxNamed        \* operations with at most Small options: every call; others: at most MaxNamed options named or left out
O(n, d) == [n |-> n, d |-> d]
Ops ==
  [uniform   |-> <<O("min_radii", "0.0"), O("max_radii", "100.0"), O("dtype", "longdouble")>>,
   clenshaw  |-> <<O("extra_pts", "empty"), O("include_origin", "True"), O("dtype", "longdouble")>>,
   molecule  |-> <<O("spacing", "0.2"), O("extension", "5.0"), O("rotate", "True")>>,
   square    |-> <<O("deriv", "False")>>,
   kl        |-> <<O("deriv", "False")>>,
   tsallis   |-> <<O("deriv", "False")>>,
   newkl     |-> <<O("mask_value", "1e-12"), O("negative_val", "100000.0")>>,
   newtsallis |-> <<O("alpha", "1.001"), O("mask_value", "1e-12")>>,
   atomic    |-> <<O("center", "origin"), O("num_s", "1"), O("num_p", "0"), O("normalize", "False")>>,
   molecular |-> <<O("normalize", "False")>>,
   evalatom  |-> <<O("deriv", "False")>>,
   evalmol   |-> <<O("deriv", "False")>>,
   fpi       |-> <<O("mask_value", "0.0"), O("integral_dens", "norm"), O("spherical", "False")>>,
   fpirun    |-> <<O("opt_coeffs", "True"), O("opt_expons", "True"), O("maxiter", "500"), O("c_threshold", "1e-6"),
                   O("e_threshold", "1e-6"), O("d_threshold", "1e-6"), O("disp", "False")>>,
   scipy     |-> <<O("measure", "KLDivergence()"), O("method", "SLSQP"), O("weights", "ones"), O("integral_dens", "norm"),
                   O("spherical", "False"), O("mask_value", "1e-18")>>,
   scipyrun  |-> <<O("opt_coeffs", "True"), O("opt_expons", "True"), O("maxiter", "1000"), O("tol", "1e-14"),
                   O("disp", "False"), O("with_constraint", "True")>>,
   one       |-> <<O("coeff_val", "100.0")>>,
   two       |-> <<O("coeff_val", "100.0")>>,
   lose      |-> <<O("coeff_val", "100.0")>>,
   merge     |-> <<O("eps", "1e-3")>>,
   greedyls  |-> <<O("choice", "pick-one"), O("local_tol", "1e-5"), O("global_tol", "1e-8"), O("method", "SLSQP"), O("normalize", "False"),
                   O("integral_dens", "norm"), O("with_constraint", "False"), O("l_maxiter", "1000"), O("g_maxiter", "2500"),
                   O("spherical", "False")>>,
   greedykl  |-> <<O("choice", "pick-one"), O("g_eps_coeff", "1e-4"), O("g_eps_exp", "1e-5"), O("g_eps_obj", "1e-10"), O("l_eps_coeff", "1e-2"),
                   O("l_eps_exp", "1e-3"), O("l_eps_obj", "1e-8"), O("l_maxiter", "1000"), O("g_maxiter", "2500"), O("mask_value", "1e-12"),
                   O("integral_dens", "norm"), O("spherical", "False")>>,
   greedyrun |-> <<O("d_threshold", "1e-8"), O("max_numb_funcs", "30"), O("add_extra_choices", "None"), O("disp", "False")>>,
   strategy  |-> <<O("choice_function", "pick-one")>>,
   slater    |-> <<O("anion", "False"), O("cation", "False")>>,
   loadwfn   |-> <<O("anion", "False"), O("cation", "False")>>,
   phi       |-> <<O("deriv", "False")>>,
   density   |-> <<O("mode", "total")>>]
VARIABLES op, pos, named, val
vars == <<op, pos, named, val>>
Opts(o) == Ops[o]
Names(o) == {Opts(o)[k].n : k \in 1..Len(Opts(o))}
Default(o, n) == LET k == CHOOSE i \in 1..Len(Opts(o)) : Opts(o)[i].n = n IN Opts(o)[k].d
(* a call is written down option by option; the meaning is built alongside    *)
Init == /\ op \in DOMAIN Ops /\ pos = 0 /\ named = {}
        /\ val = [n \in Names(op) |-> Default(op, n)]
Positional == /\ named = {} /\ pos < Len(Opts(op))
              /\ pos' = pos + 1 /\ val' = [val EXCEPT ![Opts(op)[pos + 1].n] = "given"]
              /\ UNCHANGED <<op, named>>
Free == {Opts(op)[k].n : k \in pos+1..Len(Opts(op))} \ named
Allowed(S) == \/ Len(Opts(op)) <= Small
              \/ Cardinality(S) <= MaxNamed
              \/ pos + Cardinality(S) >= Len(Opts(op)) - MaxNamed
(* naming commutes, so naming all of a set is one step: the order the names   *)
(* are written in does not matter                                             *)
Named == /\ named = {} /\ \E S \in SUBSET Free : S # {} /\ Allowed(S)
              /\ named' = S
              /\ val' = [n \in Names(op) |-> IF n \in S THEN "given" ELSE val[n]]
         /\ UNCHANGED <<op, pos>>
Next == Positional \/ Named
Spec == Init /\ [][Next]_vars
(* -- what a user relies on ------------------------------------------------- *)
Given == {Opts(op)[k].n : k \in 1..pos} \cup named
Meaning(o, S) == [n \in Names(o) |-> IF n \in S THEN "given" ELSE Default(o, n)]
OnlyWhatIsGiven == val = Meaning(op, Given)        \* not on how it was given, and nothing else changed
Disjoint == \A k \in 1..pos : Opts(op)[k].n \notin named
Distinct == Cardinality(Names(op)) = Len(Opts(op))
Emit == PrintT("@@" \o ToJson([op |-> op, pos |-> pos, named |-> named, order |-> [k \in 1..Len(Opts(op)) |-> Opts(op)[k].n], val |-> val]))
=============================================================================
