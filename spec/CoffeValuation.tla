---------------------------- MODULE CoffeValuation ----------------------------
(***************************************************************************)
(* The abstract state of one object: a value for each setting.  Values are  *)
(* tokens; 0 is the configuration histories start from.  The effect of a    *)
(* setter on the state, including its documented side effects:             *)
(*  - supplying a power spectrum also sets the range of wavenumbers;        *)
(*  - a supplied spectrum is given up when the cosmology, or how CLASS is    *)
(*    asked for one, changes.                                               *)
(***************************************************************************)
EXTENDS CoffeTables

\* "omega_cdm" is not independent; it is decided by CoffeBudget.
Default == [s \in Settings |-> 0]

\* The largest token the histories use for a setting.
\* (The nonlinear spectra need CLASS, which the sandbox lacks.)
MaxToken(s) == IF s = "pk_type" THEN 0
               ELSE IF Domain(s).type \in {"bool", "enum"} THEN 1 ELSE 2

FromPk(v) == 100 + v     \* the range of wavenumbers that came with spectrum v

ApplySet(val, s, v) ==
    LET base    == [val EXCEPT ![s] = v]
        dropped == \/ s \in DropsPkAlways
                   \/ s \in DropsPkOnChange /\ val[s] # v
    IN IF s = "pk" THEN [base EXCEPT !.k_min = FromPk(v), !.k_max = FromPk(v)]
       ELSE IF dropped THEN [base EXCEPT !.pk = 0]
       ELSE base

\* Starting points of histories: no spectrum supplied, or one supplied.
WithPk == ApplySet(Default, "pk", 1)
Starts == {Default, WithPk}

\* Requests that force a recomputation return what the plain ones return.
SameKind(k) == CASE k = "cfr" -> "cfb" [] k = "mpr" -> "mpb" [] k = "covr" -> "covb" [] OTHER -> k
=============================================================================
