---------------------------- MODULE CoffeAverage ----------------------------
(***************************************************************************)
(* Redshift averages: which pairs enter the average over a bin, and with    *)
(* which weight.  The average runs over the mean position of a pair (along  *)
(* the line of sight), from half the separation behind the near edge of the *)
(* bin to half of it before the far edge; at each mean position it contains *)
(* all orientations mu.  Positions are comoving distances 0..Far, points at *)
(* mean + mu r/2; the observer is at 0 and nothing is known from Far on.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Far

Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Sum(a, b) == <<"+", a, b>>
Dif(a, b) == <<"-", a, b>>
\* with E the expansion rate in units of today's: 1/(Hconf (1 + z)) in units of 1/H0
Weight == Div(1, "E")
\* mean positions between which the average runs, averaged uniformly in redshift
From == Sum("near", Div("r", 2))
To   == Dif("far", Div("r", 2))

Mu == {-2, -1, 0, 1, 2}                    \* mu in halves
Points(mean, h, mu) == {2 * mean + h * mu, 2 * mean - h * mu}      \* twice the position; h is r/2

VARIABLES near, far, h, state, at, pairs
avars == <<near, far, h, state, at, pairs>>

First == near + h
Last  == far - h
Low  == IF First <= Last THEN First ELSE Last
High == IF First <= Last THEN Last ELSE First
Allowed(mean) == \A mu \in Mu : \A x \in Points(mean, h, mu) : 0 < x /\ x < 2 * Far

AInit == /\ near \in 0..(Far - 1) /\ far \in (near + 1)..Far /\ h \in 1..(Far \div 2)
         /\ state = "asked" /\ at = 0 /\ pairs = {}
\* Only the two ends are looked at.
Refuse == state = "asked" /\ ~(Allowed(First) /\ Allowed(Last)) /\ state' = "refused" /\ UNCHANGED <<near, far, h, at, pairs>>
Begin  == state = "asked" /\ Allowed(First) /\ Allowed(Last) /\ state' = "running" /\ at' = Low /\ UNCHANGED <<near, far, h, pairs>>
Collect == /\ state = "running" /\ at <= High
           /\ pairs' = pairs \union {<<at, mu>> : mu \in Mu}
           /\ at' = at + 1 /\ UNCHANGED <<near, far, h, state>>
Done == state = "running" /\ at > High /\ state' = "done" /\ UNCHANGED <<near, far, h, at, pairs>>
ANext == Refuse \/ Begin \/ Collect \/ Done \/ (state \in {"done", "refused"} /\ UNCHANGED avars)
ASpec == AInit /\ [][ANext]_avars /\ WF_avars(ANext)

-----------------------------------------------------------------------------
\* A bin that can hold the separation: exactly the pairs that, turned any way, lie inside the bin.
InBin(mean) == \A mu \in Mu : \A x \in Points(mean, h, mu) : 2 * near <= x /\ x <= 2 * far
Fits == 2 * h <= far - near
Exactly == (state = "done" /\ Fits) => pairs = {<<m, mu>> : m \in {x \in 0..Far : InBin(x)}, mu \in Mu}
\* Looking at the two ends is enough: no pair is ever evaluated where it cannot be.
Evaluable == \A p \in pairs : Allowed(p[1])
\* All orientations at every mean position, and at least one mean position.
Complete == state = "done" => pairs # {} /\ \A p \in pairs : \A mu \in Mu : <<p[1], mu>> \in pairs
Ends == <>(state \in {"done", "refused"})
=============================================================================
