--------------------------- MODULE CoffeCovariance ---------------------------
(***************************************************************************)
(* The Gaussian covariance of two multipoles in a redshift bin.             *)
(*                                                                          *)
(* An estimator of a multipole correlates a field at one point with a field *)
(* at another: A those of slots 1 and 2 at separation r1, B those of slots  *)
(* 3 and 4 at separation r2.  For Gaussian fields the covariance of A and B *)
(* is the sum over all ways to pair the four fields without pairing the two *)
(* of one estimator.  Each pair correlates either through the signal or, if *)
(* both fields count galaxies of one population, through shot noise.  When  *)
(* slot 1 pairs with slot 4 the pair of B is seen from its other end, which *)
(* multiplies its multipole by (-1)^l2.                                     *)
(*                                                                          *)
(* The machine pairs slots one at a time; what it can arrive at are the     *)
(* terms of the covariance.  TLC checks that they are all of them, that     *)
(* they do not depend on the order of pairing, the symmetry of the result,  *)
(* and in whole numbers the expansion of the signal in multipoles.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Sum(a, b) == <<"+", a, b>>
Dif(a, b) == <<"-", a, b>>
Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Pow(a, n) == <<"^", a, n>>

Slots == 1..4
A == {1, 2}
B == {3, 4}
Populations == 1..4
Kinds == {"signal", "noise"}

VARIABLES pop, pairs           \* pairs: set of [slots |-> {i, j}, kind |-> ...]
cvars == <<pop, pairs>>

Used == UNION {p.slots : p \in pairs}
CInit == pop \in [Slots -> Populations] /\ pairs = {}
Pair(i, j, kind) == /\ i \in A \ Used /\ j \in B \ Used
                    /\ kind = "noise" => pop[i] = pop[j]
                    /\ pairs' = pairs \union {[slots |-> {i, j}, kind |-> kind]}
                    /\ UNCHANGED pop
CNext == (\E i \in A, j \in B, kind \in Kinds : Pair(i, j, kind)) \/ (Used = Slots /\ UNCHANGED cvars)
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(CNext)

\* The terms, stated at once.
Joined(t, i, j) == \E p \in t : p.slots = {i, j}
Mirrored(t) == Joined(t, 1, 4)
Part(t) == LET n == Cardinality({p \in t : p.kind = "noise"}) IN CASE n = 0 -> "cosmic" [] n = 1 -> "mixed" [] n = 2 -> "poisson"
Terms(q) == {t \in {{[slots |-> {1, j}, kind |-> a], [slots |-> {2, 7 - j}, kind |-> b]} : j \in B, a \in Kinds, b \in Kinds} :
               \A p \in t : p.kind = "noise" => \A i, j \in p.slots : q[i] = q[j]}
Reached  == Used = Slots => pairs \in Terms(pop)
OnTheWay == \E t \in Terms(pop) : pairs \subseteq t
Arrives  == <>(Used = Slots)
Counts   == LET n(part) == Cardinality({t \in Terms(pop) : Part(t) = part}) IN
            /\ n("cosmic") = 2
            /\ n("mixed") = Cardinality({ij \in A \X B : pop[ij[1]] = pop[ij[2]]})
            /\ n("poisson") = (IF pop[1] = pop[3] /\ pop[2] = pop[4] THEN 1 ELSE 0) + (IF pop[1] = pop[4] /\ pop[2] = pop[3] THEN 1 ELSE 0)

-----------------------------------------------------------------------------
\* Values in whole numbers: bias of a population, growth rate f, x = mu^2; noise of a population.
Bias(q) == q + 1
F == 2
Signal(q1, q2, x) == (Bias(q1) + F * x) * (Bias(q2) + F * x)
Noise(q) == 7 * q + 3
Xs == 0..2
Sgn(l) == IF l % 2 = 0 THEN 1 ELSE -1
Value(q, t, l2, x) == (IF Mirrored(t) THEN Sgn(l2) ELSE 1)
    * FoldSet(LAMBDA p, s : s * LET i == CHOOSE i \in p.slots : i \in A
                                    j == CHOOSE j \in p.slots : j \in B
                                IN IF p.kind = "signal" THEN Signal(q[i], q[j], x) ELSE Noise(q[i]), 1, t)
Total(q, l2, x) == FoldSet(LAMBDA t, s : s + Value(q, t, l2, x), 0, Terms(q))
\* Multipoles of different parity do not correlate, so l1 and l2 are of one parity here.
Swap(q)    == [i \in Slots |-> q[((i + 1) % 4) + 1]]          \* A and B
MirrorB(q) == [q EXCEPT ![3] = q[4], ![4] = q[3]]
MirrorA(q) == [q EXCEPT ![1] = q[2], ![2] = q[1]]
Symmetric == \A l \in 0..1, x \in Xs : Total(pop, l, x) = Total(Swap(pop), l, x)
Mirrors   == \A l \in 0..1, x \in Xs : /\ Total(MirrorB(pop), l, x) = Sgn(l) * Total(pop, l, x)
                                       /\ Total(MirrorA(pop), l, x) = Sgn(l) * Total(pop, l, x)
\* one population has no odd multipoles
NoOdd == (pop[1] = pop[2] \/ pop[3] = pop[4]) => \A x \in Xs : Total(pop, 1, x) = 0
\* the variance of anything is not negative
Variance == (pop[1] = pop[3] /\ pop[2] = pop[4]) => \A l \in 0..1, x \in Xs : Total(pop, l, x) >= 0

\* (b1 + f x)(b2 + f x) = c0 P0 + c2 P2 + c4 P4: coefficients times 105, Legendre polynomials times 8 (x = mu^2)
C0(b1, b2, f) == 105 * b1 * b2 + 35 * (b1 + b2) * f + 21 * f * f
C2(b1, b2, f) == 70 * (b1 + b2) * f + 60 * f * f
C4(b1, b2, f) == 24 * f * f
Kaiser == \A b1, b2, f \in -2..2, x \in -2..3 :
            8 * 105 * (b1 + f * x) * (b2 + f * x) = 8 * C0(b1, b2, f) + 4 * C2(b1, b2, f) * (3 * x - 1)
                                                    + C4(b1, b2, f) * (35 * x * x - 30 * x + 3)

-----------------------------------------------------------------------------
\* What the package is compared with.  b1..b4: biases of the populations in the slots (0 without density); f: growth
\* rate (0 without redshift-space distortions); D: growth factor; n1, n2: number densities of the tracers in slots 1 and 2.
\* Each term is an integral over mu of L_l1 L_l2 [factor] and, unless all is noise, over k of k^2 j_l1(k r1) j_l2(k r2) P^power.
Names == <<"b1", "b2", "b3", "b4">>
First(p)  == CHOOSE i \in p.slots : i \in A
Second(p) == CHOOSE i \in p.slots : i \in B
Density(i) == IF i = 1 THEN "n1" ELSE "n2"
FactorOf(p) == IF p.kind = "noise" THEN Div(1, Density(First(p)))
               ELSE Mul(Pow("D", 2), Mul(Sum(Names[First(p)], Mul("f", "x")), Sum(Names[Second(p)], Mul("f", "x"))))
Factor(t) == LET p == CHOOSE p \in t : 1 \in p.slots
                 q == CHOOSE q \in t : 2 \in q.slots
             IN Mul(FactorOf(p), FactorOf(q))
Power(t) == Cardinality({p \in t : p.kind = "signal"})
\* coefficient of  1/2 Int dmu L L [factor]  times  Int dk k^2 j j P^power;  sign = i^(l1 - l2), l1 + l2 even
Prefactor == Div(Mul(Mul(Sum(Mul(2, "l1"), 1), Sum(Mul(2, "l2"), 1)), "sign"), Mul(Mul(2, Pow("pi", 2)), "volume"))
\* all noise: Int dk k^2 j_l(k r1) j_l(k r2) = pi/(2 r^2) delta(r1 - r2), a pixel wide
Plain == Div("pi", Mul(2, Mul(Pow("r", 2), "pixel")))
\* with the Bessel functions averaged over shells a pixel wide, instead
Outer == Sum("r", Div("pixel", 2))
Inner == Dif("r", Div("pixel", 2))
ShellVolume == Div(Dif(Pow(Outer, 3), Pow(Inner, 3)), 3)
Binned == Div("pi", Mul(2, ShellVolume))
\* volume of a bin: a shell of the sky; for redshift averages, that of the inverse variances along the bin
Volume == Mul(Mul(Div(4, 3), Mul("pi", "fsky")), Dif(Pow("far", 3), Pow("near", 3)))
VolumeIntegrand == Div(Pow("H0", 2), Mul("H", Pow("chi", 2)))
AverageVolume == Div(Mul(4, Mul("pi", "fsky")), "integral")
=============================================================================
