--------------------------- MODULE CoffeIntegrals ---------------------------
(***************************************************************************)
(* The Fourier-Bessel integrals a user can ask for.                         *)
(*                                                                          *)
(*   I(n,l)(r) = 1/(2 pi^2) Int dk k^2 P(k) j_l(k r)/(k r)^n                *)
(*                                                                          *)
(* and, where n >= l, that times r^(n-l), which stays finite at r = 0.      *)
(* j_l is known by its series j_l(x) = x^l b_l(x),                          *)
(*   b_l(x) = Sum_i (-1)^i x^(2i) / (2^i i! (2i + 2l + 1)!!),               *)
(* whose terms are kept as exact fractions.  What makes them the spherical  *)
(* Bessel functions (their equation, their recurrences, b_0 = sin x/x) is   *)
(* checked term by term; so are the relations between the integrals that    *)
(* follow, which the package's answers have to satisfy among themselves.    *)
(*                                                                          *)
(* Which integrals exist depends on the contributions that are switched on  *)
(* when they are computed, and they are kept until a switch that matters.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Regular == {<<0, 0>>, <<0, 2>>, <<0, 4>>, <<1, 1>>, <<1, 3>>, <<2, 0>>, <<2, 2>>, <<3, 1>>}
Divergent == <<4, 0>>
Divergents == {"d2", "g1", "g2", "g3", "g4", "g5"}
Switches == Divergents \union {"density", "rsd", "d1", "lensing"}

-----------------------------------------------------------------------------
\* Fractions <<numerator, denominator>>.
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsOf(a) == IF a < 0 THEN -a ELSE a
Frac(a, b) == LET g == Gcd(AbsOf(a), b) IN IF a = 0 THEN <<0, 1>> ELSE <<a \div g, b \div g>>
FSum(p, q) == LET g == Gcd(p[2], q[2]) IN Frac(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), p[2] * (q[2] \div g))
FScale(k, p) == LET g == Gcd(AbsOf(k), p[2]) IN IF k = 0 THEN <<0, 1>> ELSE Frac((k \div g) * p[1], p[2] \div g)
FOver(p, k) == LET g == Gcd(AbsOf(p[1]), k) IN Frac(p[1] \div g, p[2] * (k \div g))

RECURSIVE Double(_)
Double(n) == IF n <= 1 THEN 1 ELSE n * Double(n - 2)          \* n!!

\* The coefficient of x^(2i) in b_l, each from the one before: a_i = -a_(i-1) / (2i (2i + 2l + 1)).
RECURSIVE Coef(_, _)
Coef(l, i) == IF i = 0 THEN <<1, Double(2 * l + 1)>> ELSE FOver(FScale(-1, Coef(l, i - 1)), 2 * i * (2 * i + 2 * l + 1))
Before(l, i) == IF i = 0 THEN <<0, 1>> ELSE Coef(l, i - 1)

CONSTANTS MaxL, Upto
Ls == 0..MaxL
Is == 0..Upto
\* x^2 j'' + 2 x j' + (x^2 - l(l+1)) j = 0:  ((l+2i)(l+2i+1) - l(l+1)) a_i + a_(i-1) = 0
Equation == \A l \in Ls : \A i \in Is :
    FSum(FScale((l + 2 * i) * (l + 2 * i + 1) - l * (l + 1), Coef(l, i)), Before(l, i)) = <<0, 1>>
\* j_(l-1) + j_(l+1) = (2l+1) j_l / x:  b_(l-1) + x^2 b_(l+1) = (2l+1) b_l
Recurrence == \A l \in Ls \ {0} : \A i \in Is :
    FSum(Coef(l - 1, i), Before(l + 1, i)) = FScale(2 * l + 1, Coef(l, i))
\* (1/x d/dx) b_l = -b_(l+1)
Derivative == \A l \in Ls : \A i \in Is \ {0} : FScale(2 * i, Coef(l, i)) = FScale(-1, Coef(l + 1, i - 1))
\* b_0 = sin x / x
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN 1 ELSE n * Factorial(n - 1)
Sine == \A i \in {j \in Is : 2 * j + 1 <= 12} : Coef(0, i) = Frac(IF i % 2 = 0 THEN 1 ELSE -1, Factorial(2 * i + 1))
Bessel == Equation /\ Recurrence /\ Derivative /\ Sine

-----------------------------------------------------------------------------
\* What is returned: 1/(2 pi^2) Int dk P(k) k^KPower b_l(k r) r^RPower.
KPower(n, l) == 2 + l - n
RPower(n, l) == IF n >= l THEN 0 ELSE l - n
\* at r = 0: that of the first term of the series, or nothing
AtZero(n, l) == IF n >= l THEN Coef(l, 0) ELSE <<0, 1>>

\* The multiple of r that turns what is returned into I(n,l).
Stored(n, l) == IF n >= l THEN n - l ELSE 0
\* (2l+1) I(n+1,l) = I(n,l-1) + I(n,l+1), for those that can be asked for: <<n, l>> with its parts
\* <<factor, n, l, power of r>> which add up to nothing.
Relations == {<<n, l>> \in (0..3) \X (1..3) : {<<n + 1, l>>, <<n, l - 1>>, <<n, l + 1>>} \subseteq Regular \union {Divergent}}
Parts(n, l) ==
    LET most == Stored(n + 1, l)
        most2 == IF Stored(n, l - 1) > most THEN Stored(n, l - 1) ELSE most
        part(k, a, b) == <<k, a, b, most2 - Stored(a, b)>>
    IN << part(-(2 * l + 1), n + 1, l), part(1, n, l - 1), part(1, n, l + 1) >>
\* checked on the series: the parts' coefficients at every power of r and of k cancel
KAt(p, i) == KPower(p[2], p[3]) + 2 * i
RAt(p, i) == RPower(p[2], p[3]) + 2 * i + p[4]
Cancels == \A nl \in Relations : LET ps == Parts(nl[1], nl[2]) IN
    \A i \in Is \ {0} : LET r == RAt(ps[1], i)
        idx(p) == (r - RAt(p, 0)) \div 2
        term(p) == IF r - RAt(p, 0) < 0 THEN <<0, 1>> ELSE FScale(p[1], Coef(p[3], idx(p)))
    IN /\ \A j \in 1..3 : (r - RAt(ps[j], 0)) % 2 = 0 /\ (r >= RAt(ps[j], 0) => KAt(ps[j], idx(ps[j])) = KAt(ps[1], i))
       /\ FSum(FSum(term(ps[1]), term(ps[2])), term(ps[3])) = <<0, 1>>

\* (1/r d/dr) b_l(k r) = -k^2 b_(l+1)(k r):  the slope of one is another, d[n,l]/dr = -r^power [n-1,l+1].
Slopes == {<<n, l>> \in Regular \union {Divergent} : n >= l /\ <<n - 1, l + 1>> \in Regular}
SlopePower(n, l) == 1 - RPower(n - 1, l + 1)
SlopeHolds == \A p \in Slopes : LET n == p[1]  l == p[2] IN
    \A i \in Is \ {0} : /\ KPower(n, l) + 2 * i = KPower(n - 1, l + 1) + 2 * (i - 1)
                       /\ 2 * i - 1 = SlopePower(n, l) + RPower(n - 1, l + 1) + 2 * (i - 1)
                       /\ FScale(2 * i, Coef(l, i)) = FScale(-1, Coef(l + 1, i - 1))

\* How they change with the spectrum's units: r -> s r and k -> k/s, P -> s^3 P.
Scaling(n, l) == Stored(n, l)

-----------------------------------------------------------------------------
VARIABLES on,      \* contributions that are switched on
          kept     \* the integrals that are kept, none if nothing is
ivars == <<on, kept>>
Needed(s) == Regular \union (IF s \intersect Divergents = {} THEN {} ELSE {Divergent})
IInit == on = {"density"} /\ kept = {}
Turn(e) == /\ on' = IF e \in on THEN on \ {e} ELSE on \union {e}
           /\ kept' = IF e \in Divergents THEN {} ELSE kept
Compute == kept = {} /\ kept' = Needed(on) /\ UNCHANGED on
Discard == kept # {} /\ kept' = {} /\ UNCHANGED on
INext == Compute \/ Discard \/ \E e \in Switches : Turn(e)
ISpec == IInit /\ [][INext]_ivars
\* what is kept is always what the switches ask for
Current == kept \in {{}, Needed(on)}
Asked(n, l) == <<n, l>> \in Needed(on)
=============================================================================
