----------------------------- MODULE CoffeInput -----------------------------
(***************************************************************************)
(* What the user supplies: a power spectrum, perhaps known at some redshift,*)
(* and eight tables of biases; and what may be asked about them.            *)
(*                                                                          *)
(* A spectrum is kept as it is today: table / D(z given)^2.  At any other   *)
(* redshift it is that times a power of the growth factor; such products    *)
(* are kept symbolically, as the power with which D at each redshift enters *)
(* -- D of the universe of that time, so a universe is part of the key.     *)
(* A different universe has a different spectrum: the supplied one is gone. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Tables,       \* tables that can be interpolated
          Redshifts,    \* 0 is today
          Universes

Slots == {"galaxy_bias1", "galaxy_bias2", "galaxy_bias3", "galaxy_bias4",
          "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"}
\* Tables that cannot be used: for either, only for a spectrum, only for a bias.
Unusable == {"few", "unequal", "nan", "infinite", "repeated", "unsorted"}
UnusableSpectrum == Unusable \union {"zero", "negative"}
UnusableBias == Unusable \union {"future", "far"}
Default == 0            \* the spectrum of the universe, the biases an object starts with

VARIABLES universe,
          spectrum,     \* [table, growth]: growth maps <<universe, redshift>> to a power of D
          bias          \* [Slots -> Tables \union {Default}]
nvars == <<universe, spectrum, bias>>

None == [x \in {} |-> 0]
Grown(g, u, z, n) ==      \* times D_u(z)^n; D today is 1
    IF z = 0 THEN g
    ELSE LET old == IF <<u, z>> \in DOMAIN g THEN g[<<u, z>>] ELSE 0
         IN [x \in {y \in (DOMAIN g) \union {<<u, z>>} : (IF y = <<u, z>> THEN old + n ELSE g[y]) # 0}
               |-> IF x = <<u, z>> THEN old + n ELSE g[x]]
Supplied(t, z) == [table |-> t, growth |-> Grown(None, universe, z, -2)]

Power(z) == [spectrum EXCEPT !.growth = Grown(@, universe, z, 2)]
Cross(z1, z2) == [spectrum EXCEPT !.growth = Grown(Grown(@, universe, z1, 1), universe, z2, 1)]

NInit == /\ universe \in Universes
         /\ spectrum = [table |-> Default, growth |-> None]
         /\ bias = [s \in Slots |-> Default]
Supply(t, z) == spectrum' = Supplied(t, z) /\ UNCHANGED <<universe, bias>>
Bias(s, t) == bias' = [bias EXCEPT ![s] = t] /\ UNCHANGED <<universe, spectrum>>
Universe(u) == /\ universe' = u
               /\ spectrum' = [table |-> Default, growth |-> None]
               /\ UNCHANGED bias
Refused == UNCHANGED nvars
NNext == \/ \E t \in Tables, z \in Redshifts : Supply(t, z)
         \/ \E s \in Slots, t \in Tables : Bias(s, t)
         \/ \E u \in Universes : Universe(u)
         \/ Refused
NSpec == NInit /\ [][NNext]_nvars

\* The growth that is left is always this universe's, so no growth factor of another one enters.
OwnGrowth == \A x \in DOMAIN spectrum.growth : x[1] = universe
\* What was given at a redshift is what is there at that redshift.
GivenBack == \A x \in DOMAIN spectrum.growth : Power(x[2]).growth = None
CrossIsPower == \A z \in Redshifts : Cross(z, z) = Power(z)
CrossSymmetric == \A z1, z2 \in Redshifts : Cross(z1, z2) = Cross(z2, z1)
\* Cross(z1,z2)^2 = Power(z1) Power(z2)
Twice(g) == [x \in DOMAIN g |-> 2 * g[x]]
AtX(g, x) == IF x \in DOMAIN g THEN g[x] ELSE 0
Geometric == \A z1, z2 \in Redshifts : LET p == Power(z1).growth  q == Power(z2).growth  c == Cross(z1, z2).growth IN
    \A x \in (DOMAIN p) \union (DOMAIN q) \union (DOMAIN c) : 2 * AtX(c, x) = AtX(p, x) + AtX(q, x)
OnlyOne == [][ /\ Cardinality({s \in Slots : bias'[s] # bias[s]}) <= 1
               /\ (bias' # bias => spectrum' = spectrum)
               /\ (universe' # universe => spectrum'.table = Default) ]_nvars

-----------------------------------------------------------------------------
(* Every result is a form of some degree in the spectrum: two-point         *)
(* functions of the first, the cosmic variance of the second, the mixed     *)
(* part of the first, the Poisson part of degree none.  So for spectra that *)
(* are combinations a A + b B of two, weights for which the sum of all      *)
(* weighted monomials a^i b^(d-i) vanishes give results that cancel.        *)
Combos == {<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, 0>>, <<1, 3>>}
Degrees == [signal |-> 1, mixed |-> 1, cosmic |-> 2, poisson |-> 0]
RECURSIVE Raised(_, _)
Raised(a, n) == IF n = 0 THEN 1 ELSE a * Raised(a, n - 1)
RECURSIVE Total(_, _, _, _)
Total(ws, cs, i, d) == IF ws = <<>> THEN 0 ELSE ws[1] * Raised(cs[1][1], i) * Raised(cs[1][2], d - i) + Total(Tail(ws), Tail(cs), i, d)
Cancel(ws, cs, d) == \A i \in 0..d : Total(ws, cs, i, d) = 0
\* the weights for each degree: all parts of the sums of squares of A, B and their combinations
Relation(d) == CASE d = 0 -> << <<1, 1, 1, 1, 1, -5>> >>
                 [] d = 1 -> << <<1, 1, -1, 0, 0, 0>>, <<2, 1, 0, -1, 0, 0>>, <<3, 0, 0, 0, -1, 0>>, <<1, 3, 0, 0, 0, -1>> >>
                 [] d = 2 -> << <<9, 0, 0, 0, -1, 0>>, <<2, -1, 2, -1, 0, 0>>, <<-2, 6, 3, 0, 0, -1>> >>
Listed == << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, 0>>, <<1, 3>> >>
Forms == \A d \in 0..2 : \A i \in 1..Len(Relation(d)) : Cancel(Relation(d)[i], Listed, d)
=============================================================================
