----------------------------- MODULE CoffeSignal -----------------------------
(***************************************************************************)
(* What a two-point function is the sum of.                                 *)
(*                                                                          *)
(* An object has contributions switched on, a switch that keeps only cross  *)
(* terms, and three switches that replace terms by their plane-parallel     *)
(* limits.  The value of a request is the sum of its terms, one for every   *)
(* unordered pair of contributions that are on; each term has a form:       *)
(*   "full"  the full-sky one (CoffeTerms!Term),                            *)
(*   "plane" the plane-parallel one (CoffeTerms!Plane),                     *)
(*   "limber" the plane-parallel one of lensing: density-lensing and        *)
(*            lensing-lensing; even in mu,                                  *)
(*   "none"  zero: in that limit lensing does not see displacements along   *)
(*           the line of sight.                                             *)
(* The two points carry populations; exchanging the populations and turning *)
(* mu around is looking at the same pair from the other side.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Order == << "density", "rsd", "d1", "d2", "g1", "g2", "g3", "lensing", "g4", "g5" >>
Contributions == {Order[i] : i \in 1..Len(Order)}
PlaneParallel == {"density", "rsd", "d1"}
Switches == {"flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal"}
Integrated == {"lensing", "g4", "g5"}

VARIABLES on, cross, flat, exchanged
svars == <<on, cross, flat, exchanged>>

Form(a, b, f) ==
    CASE "flatsky_local" \in f /\ {a, b} \subseteq PlaneParallel -> "plane"
      [] "flatsky_local_nonlocal" \in f /\ {a, b} = {"density", "lensing"} -> "limber"
      [] "flatsky_local_nonlocal" \in f /\ {a, b} \in {{"rsd", "lensing"}, {"d1", "lensing"}} -> "none"
      [] "flatsky_nonlocal" \in f /\ {a, b} = {"lensing"} -> "limber"
      [] OTHER -> "full"

Pairs == {ij \in (1..Len(Order)) \X (1..Len(Order)) : ij[1] <= ij[2]}
Kept(o, c) == {p \in Pairs : Order[p[1]] \in o /\ Order[p[2]] \in o /\ (c => p[1] # p[2])}
Terms(o, c, f) == {[a |-> Order[p[1]], b |-> Order[p[2]], form |-> Form(Order[p[1]], Order[p[2]], f)] : p \in Kept(o, c)}
\* With nothing switched on there is nothing to ask for.
Refused == on = {}

SInit == on = {"density"} /\ cross = FALSE /\ flat = {} /\ exchanged = FALSE
Toggle(e) == on' = (IF e \in on THEN on \ {e} ELSE on \union {e}) /\ UNCHANGED <<cross, flat, exchanged>>
\* resetting turns every switch off
Reset == on' = {} /\ cross' = FALSE /\ flat' = {} /\ UNCHANGED exchanged
Only == cross' = ~cross /\ UNCHANGED <<on, flat, exchanged>>
Flat(s) == flat' = (IF s \in flat THEN flat \ {s} ELSE flat \union {s}) /\ UNCHANGED <<on, cross, exchanged>>
Exchange == exchanged' = ~exchanged /\ UNCHANGED <<on, cross, flat>>
SNext == (\E e \in Contributions : Toggle(e)) \/ Reset \/ Only \/ (\E s \in Switches : Flat(s)) \/ Exchange
SSpec == SInit /\ [][SNext]_svars

-----------------------------------------------------------------------------
T == Terms(on, cross, flat)
\* Every pair that is on has exactly one term; nothing that is off has any.
EachOnce == /\ \A e1, e2 \in on : Cardinality({t \in T : {t.a, t.b} = {e1, e2}}) = (IF cross /\ e1 = e2 THEN 0 ELSE 1)
            /\ \A t \in T : {t.a, t.b} \subseteq on
            /\ 2 * Cardinality(T) = Cardinality(on) * (IF cross THEN Cardinality(on) - 1 ELSE Cardinality(on) + 1)
\* Switching a contribution off takes away its own terms and no others.
Toggling == \A e \in on : Terms(on \ {e}, cross, flat) = {t \in T : e \notin {t.a, t.b}}
\* A value of several contributions follows from those of pairs and single ones.
FromPairs == T = UNION {Terms(p, cross, flat) : p \in {{e1, e2} : e1, e2 \in on}}
\* A plane-parallel switch changes only its own terms, each switch its own.
Others(s) == Switches \ {s}
Changed(s) == {t \in T : Form(t.a, t.b, flat \ {s}) # Form(t.a, t.b, flat \union {s})}
OwnTerms == /\ \A s1, s2 \in Switches : s1 # s2 => Changed(s1) \cap Changed(s2) = {}
            /\ \A t \in Changed("flatsky_local") : {t.a, t.b} \cap Integrated = {}
            /\ \A t \in Changed("flatsky_local_nonlocal") : Cardinality({t.a, t.b} \cap Integrated) = 1
            /\ \A t \in Changed("flatsky_nonlocal") : {t.a, t.b} \subseteq Integrated
View == <<on, cross, flat>>      \* exchanging the populations changes no term
FullSky == flat = {} => \A t \in T : t.form = "full"
=============================================================================
