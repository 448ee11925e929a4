--------------------------- MODULE CoffeBackground ---------------------------
(***************************************************************************)
(* The homogeneous universe and the growth of structure in it.              *)
(*                                                                          *)
(* What the package is compared with are the expressions below.  The rest   *)
(* of the module shows, in whole numbers, that they are the ones wanted:    *)
(* components of constant equation of state w dilute as y^(3(1+w)) with     *)
(* y = 1 + z; the conformal rate's derivative is the derivative of the      *)
(* conformal rate; the growth equation in its two usual forms is one; its   *)
(* growing solution is D = a in a universe of matter, and the series below  *)
(* in one of matter and dark energy; and a universe that starts closed      *)
(* (shares sum to the whole) stays so however far one looks back.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Sum(a, b) == <<"+", a, b>>
Dif(a, b) == <<"-", a, b>>
Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Pow(a, n) == <<"^", a, n>>
Exp(a)    == <<"exp", a>>

-----------------------------------------------------------------------------
\* y = 1 + z; m, g, de: fractions of matter (with massive neutrinos), radiation, dark energy; H0 in 1/Mpc (c = 1).
Y == Sum(1, "z")
W == Sum("w0", Mul("wa", Div("z", Y)))                                           \* w0 + wa (1 - a)
\* exp(3 Int (1 + w)/(1 + z) dz)
Dark == Mul(Pow(Y, Mul(3, Sum(1, Sum("w0", "wa")))), Exp(Mul(-3, Mul("wa", Div("z", Y)))))
E2 == Sum(Mul("m", Pow(Y, 3)), Sum(Mul("g", Pow(Y, 4)), Mul("de", Dark)))
Hubble    == Mul("H0", Pow(E2, "half"))
Conformal == Div(Hubble, Y)
ConformalDerivative ==
    Mul(Mul(Div(-1, 2), Pow("H0", 2)),
        Sum(Mul("m", Y), Sum(Mul(2, Mul("g", Pow(Y, 2))), Div(Mul(Mul(Sum(1, Mul(3, W)), "de"), Dark), Pow(Y, 2)))))
DistanceIntegrand == Div(1, Hubble)
ScaleFactor == Div(1, Y)

\* Growth in matter and dark energy (everything that is not matter counts as dark energy), by the scale factor:
\*    D'' = -3/2 (1 - w (1 - M)) D'/a + 3/2 M D/a^2,   M = fraction of matter at the time,
\* begun in the matter era, with D = a and D' = 1 at a = 1/20.
Begin == Div(1, 20)
Matter == Div("m", Sum("m", Mul(Dif(1, "m"), Div(Dark, Pow(Y, 3)))))
Growth2 == Sum(Mul(Mul(Div(-3, 2), Dif(1, Mul(W, Dif(1, "M")))), Div("D1", "a")),
               Mul(Mul(Div(3, 2), "M"), Div("D", Pow("a", 2))))
\* the growing solution for constant w: D = a Sum_k c_k (-X)^k with X = (1 - m)/m a^(-3w); n = -3w
\* c_k/c_{k-1}
SeriesRatio == Div(Mul(Sum(1, Mul(Dif("k", 1), "n")), Sum(Sum(Mul(2, Mul(Dif("k", 1), "n")), "n"), 3)),
                   Mul("n", Mul("k", Sum(5, Mul(2, Mul("k", "n"))))))
Rate == Div(Mul("a", "D1"), "D")
\* the largest separation in a bin
MaximumSeparation == Mul(2, Dif("far", "middle"))

-----------------------------------------------------------------------------
\* Components by the power n of y (n = 3(1+w)), as a function from powers to whole shares; 3w = n - 3.
CONSTANTS Powers, Whole, Back

Shares == {c \in [Powers -> 0..Whole] : FoldSet(LAMBDA n, s : s + c[n], 0, Powers) = Whole}
\* polynomials in y (or a) with whole coefficients
At(p, n) == IF n \in DOMAIN p THEN p[n] ELSE 0
Trim(p) == LET d == {n \in DOMAIN p : p[n] # 0} IN [n \in d |-> p[n]]
Plus(p, q) == Trim([n \in (DOMAIN p) \union (DOMAIN q) |-> At(p, n) + At(q, n)])
Times(p, q) == FoldSet(LAMBDA ij, s : Plus(s, [x \in {ij[1] + ij[2]} |-> p[ij[1]] * q[ij[2]]]), [x \in {} |-> 0], (DOMAIN p) \X (DOMAIN q))
Scaled(k, p) == Trim([n \in DOMAIN p |-> k * p[n]])
Shift(p, j) == [n \in {m + j : m \in DOMAIN p} |-> p[n - j]]
Derivative(p) == Trim([n \in {m - 1 : m \in DOMAIN p} |-> (n + 1) * p[n + 1]])

Total(c) == Trim(c)                                        \* E^2, in shares
Conf2(c) == Shift(Total(c), -2)                            \* conformal rate squared, (E/y)^2
\* By the conformal time, dy = -conformal rate * y: twice the derivative of the rate is -y d(rate^2)/dy.
TwiceDerivative(c) == Scaled(-1, Shift(Derivative(Conf2(c)), 1))
\* The stated expression: -(1 + 3w) share y^(1+3w) summed, 1 + 3w = n - 2.
StatedTwice(c) == Trim([m \in {n - 2 : n \in Powers} |-> -m * c[m + 2]])
IsDerivative == \A c \in Shares : TwiceDerivative(c) = StatedTwice(c)

\* Growth: the usual form  D'' + (3/a + dlnE/da) D' = 3/2 m a^-5 E^-2 D  times 2 E^2, as polynomials in a
\* (a component of power n is a^-n), against the stated form with M = m a^-3/E^2 and one dark component n:
\* (1 - M) = share a^-n / E^2.
InA(c) == Trim([k \in {-n : n \in Powers} |-> c[-k]])
UsualFriction(c) == Plus(Scaled(6, InA(c)), Shift(Derivative(InA(c)), 1))        \* 2 E^2 a (3/a + E'/E)
StatedFriction(c, n) == Plus(Scaled(3, InA(c)), Scaled(-(n - 3), Trim([k \in {-n} |-> c[n]])))   \* 3 E^2 - 3w (share)
OneForm == \A n \in Powers \ {3} : \A c \in {c \in Shares : \A k \in Powers \ {3, n} : c[k] = 0} :
              UsualFriction(c) = StatedFriction(c, n)
\* In a universe of matter D = a solves it: friction * D' = source * D.
MatterOnly == LET c == [n \in Powers |-> IF n = 3 THEN Whole ELSE 0]
              IN UsualFriction(c) = Scaled(3, InA(c))

\* The series: with D = a Sum d_k X^k, X ~ a^n, order X^k of  2 (1 + X) a^2 D'' + 3 (1 + X - wX) a D' - 3 D = 0
\* (3w = -n) relates d_k to d_{k-1}:
Order0(p) == 2 * p * (p - 1) + 3 * p - 3                     \* at power a^p, without X
Order1(p, n) == 2 * p * (p - 1) + (3 + n) * p                \* multiplied by X
Solves(k, n) ==      \* d_k/d_{k-1} = - SeriesRatio
    LET p == 1 + k * n  q == 1 + (k - 1) * n
    IN Order0(p) * ((1 + (k - 1) * n) * (2 * (k - 1) * n + n + 3)) = Order1(q, n) * (n * k * (5 + 2 * k * n))
SeriesSolves == \A k \in 1..12 : \A n \in 1..6 : Solves(k, n)

-----------------------------------------------------------------------------
\* Looking back: the shares of today, how far back one looks, and twice the bounds of the distance passed.
VARIABLES share, y, now, seen
bvars == <<share, y, now, seen>>
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
Of(c, n, u) == c[n] * Power(u, n)
E2At(c, u) == FoldSet(LAMBDA n, s : s + Of(c, n, u), 0, Powers)

BInit == share \in Shares /\ y = 1 /\ now = share /\ seen = <<>>
\* every component dilutes on its own
Look == /\ y < Back
        /\ y' = y + 1
        /\ now' = [n \in Powers |-> (now[n] * Power(y + 1, n)) \div Power(y, n)]
        /\ seen' = Append(seen, E2At(share, y))
        /\ UNCHANGED share
BSpec == BInit /\ [][Look]_bvars

Today == y = 1 => FoldSet(LAMBDA n, s : s + now[n], 0, Powers) = Whole           \* H(0) = H0
Dilutes == \A n \in Powers : now[n] = Of(share, n, y)
\* without anything that grows thinner backwards, the rate was never smaller: a farther point is farther
Faster == \A i \in 1..Len(seen) : \A j \in 1..i : seen[j] <= seen[i]
\* the densest component of the past is the one of the highest power
Domination == \A n \in Powers : \A k \in Powers : (k < n /\ share[n] > 0 /\ share[k] <= share[n]) => now[k] <= now[n]
=============================================================================
