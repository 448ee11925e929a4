--------------------------- MODULE CoffeDerivation ---------------------------
(***************************************************************************)
(* The derivation of a term as a behaviour: starting from the correlation   *)
(* of two filtered densities, radial derivatives are taken on either leg in *)
(* any order, then lensing's angular Laplacians.  Whatever the order, the    *)
(* outcome is CoffeTerms!Term, and each intermediate result is a correlation *)
(* of its own: dimensionally homogeneous, and mirrored by the exchange of    *)
(* the legs.                                                                *)
(***************************************************************************)
EXTENDS CoffeTerms

VARIABLES e1, e2, left1, left2, laps, p
dvars == <<e1, e2, left1, left2, laps, p>>

DInit == /\ e1 \in Contributions /\ e2 \in Contributions
         /\ left1 = Radial(e1) /\ left2 = Radial(e2) /\ laps = 0 /\ p = One
Leg1 == left1 > 0 /\ p' = Derive(p, 1) /\ left1' = left1 - 1 /\ UNCHANGED <<e1, e2, left2, laps>>
Leg2 == left2 > 0 /\ p' = Derive(p, 2) /\ left2' = left2 - 1 /\ UNCHANGED <<e1, e2, left1, laps>>
Angular == /\ left1 = 0 /\ left2 = 0 /\ laps < Laplace(e1) + Laplace(e2)
           /\ p' = Laplacian(IF laps = 0 THEN Expand(p) ELSE p) /\ laps' = laps + 1
           /\ UNCHANGED <<e1, e2, left1, left2>>
DNext == Leg1 \/ Leg2 \/ Angular
DSpec == DInit /\ [][DNext]_dvars

Done == left1 = 0 /\ left2 = 0 /\ laps = Laplace(e1) + Laplace(e2)
InCosines == IF laps = 0 THEN Expand(p) ELSE p
Confluent == Done => InCosines = Term(e1, e2)
Taken == (Radial(e1) - left1) + (Radial(e2) - left2)
Dimension == \A m \in DOMAIN InCosines : m[2] + m[3] = 2 * m[4] - Taken
\* Taking the derivatives on the other legs gives the mirrored correlation.
Mirrored == laps = 0 => Mirror(Expand(p)) =
                Expand(Derived(Derived(One, 1, Radial(e2) - left2), 2, Radial(e1) - left1))
=============================================================================
