----------------------------- MODULE CoffeTerms -----------------------------
(***************************************************************************)
(* The two-point function of the observed number counts in linear theory,   *)
(* derived from what each contribution is.                                  *)
(*                                                                          *)
(* Every contribution to the counts seen along direction n at comoving      *)
(* distance x is  amplitude * (n.grad)^m k^(-p)  acting on today's density  *)
(* field at the point x n (integrated contributions: at every point on the  *)
(* way there, with a kernel and, for lensing, the angular Laplacian).       *)
(* Correlating two of them along n1 and n2 gives derivatives of             *)
(*    K(q,s)(r) = 1/(2 pi^2) Int dk k^2 P(k) k^(2s-q) j_s(kr)/(kr)^s        *)
(* where r is the distance of the two points: as (1/r d/dr) K(q,s) =        *)
(* -K(q,s+1), everything stays a polynomial in the dot products.            *)
(*                                                                          *)
(* Polynomials are functions from monomials to integers.  While deriving,   *)
(* monomials are <<c, A, B, s>>: powers of c = n1.n2, A = n1.(x2 n2 - x1 n1)*)
(* and B = n2.(x2 n2 - x1 n1), and which K.  Afterwards they are            *)
(* <<c, x1, x2, s>>.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Contributions == {"density", "rsd", "d1", "d2", "g1", "g2", "g3", "lensing", "g4", "g5"}
Integrated    == {"lensing", "g4", "g5"}
Local         == Contributions \ Integrated
Order == << "density", "rsd", "d1", "d2", "g1", "g2", "g3", "lensing", "g4", "g5" >>

\* m: radial derivatives; p: inverse powers of k; lap: angular Laplacians.
Radial(e) == CASE e = "rsd" -> 2 [] e = "d1" -> 1 [] OTHER -> 0
InvK(e) == IF e = "density" THEN 0 ELSE 2
Laplace(e) == IF e = "lensing" THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Amplitudes, as expressions <<operator, arguments>>, of quantities at the *)
(* source: f, H (conformal), Hp (its derivative by conformal time), D, x, z,*)
(* and the biases b, s, e of the source's population; kernels also of the   *)
(* same at the point l of the line of sight: fl, Hl, Dl, zl.                *)
(***************************************************************************)
Sum(a, b) == <<"+", a, b>>
Dif(a, b) == <<"-", a, b>>
Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Neg(a)    == <<"-", 0, a>>
Pow(a, n) == <<"^", a, n>>

Magn == Dif(2, Mul(5, "s"))                                        \* 2 - 5s
Doppler == Sum(Div("Hp", Pow("H", 2)), Sum(Div(Magn, Mul("x", "H")), Dif(Mul(5, "s"), "e")))
PotentialAt(z) == Mul(Div(-3, 2), Mul("Om", Mul(Pow("H0", 2), Sum(1, z))))   \* Poisson: Phi k^2 / (delta D)
Potential == PotentialAt("z")

Amplitude(e) ==
    Mul("D",
      CASE e = "density" -> "b"
        [] e = "rsd" -> Neg("f")
        [] e = "d1"  -> Neg(Mul("f", Mul("H", Doppler)))
        [] e = "d2"  -> Mul(Dif(3, "e"), Mul("f", Pow("H", 2)))
        [] e = "g1"  -> Mul(Sum(1, Doppler), Potential)
        [] e = "g2"  -> Mul(Neg(Magn), Potential)
        [] e = "g3"  -> Mul(Dif("f", 1), Potential))
Kernel(e) ==
    Mul(Mul("Dl", PotentialAt("zl")),
      CASE e = "lensing" -> Neg(Div(Mul(Magn, Dif("x", "l")), Mul("x", "l")))
        [] e = "g4" -> Div(Mul(2, Magn), "x")
        [] e = "g5" -> Mul(2, Mul(Doppler, Mul("Hl", Dif("fl", 1)))))

\* The plane-parallel limit of lensing (Limber): only modes across the line of sight count, and
\* J is  Int dk k P(k) J0(k t)  at the transverse separation t of the two lines of sight.
\* A source is lensed by the density near the other one where that is in front of it, by mu r;
\* with everything at the mean redshift, either of the two can be the one behind.
LimberDensity ==
    Mul(Div(-3, Mul(8, "pi")), Mul(Mul("Om", Pow("H0", 2)), Mul(Mul(Pow("D", 2), Sum(1, "z")), Mul(Mul("absmu", "r"),
        Mul("J", Sum(Mul(Dif(2, Mul(5, "s1")), "b2"), Mul(Dif(2, Mul(5, "s2")), "b1")))))))
LimberDensityAcross == Mul("r", Pow(Dif(1, Pow("absmu", 2)), "half"))           \* t
\* Both are lensed by what is in front of them at the fraction u of their distance x (l = u x).
LimberLensing ==
    Mul(Div(9, Mul(8, "pi")), Mul(Mul(Pow("Om", 2), Pow("H0", 4)), Mul(Mul(Dif(2, Mul(5, "s1")), Dif(2, Mul(5, "s2"))),
        Mul(Pow("x", 3), Mul("J", Mul(Mul(Pow("Dl", 2), Pow(Sum(1, "zl"), 2)), Mul(Pow("u", 2), Pow(Dif(1, "u"), 2))))))))
LimberLensingAcross == Mul("u", LimberDensityAcross)

-----------------------------------------------------------------------------
\* Polynomials.
Zero == [m \in {} |-> 0]
At(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
Trim(p) == LET d == {m \in DOMAIN p : p[m] # 0} IN [m \in d |-> p[m]]
Plus(p, q) == Trim([m \in (DOMAIN p) \union (DOMAIN q) |-> At(p, m) + At(q, m)])
One == [m \in {<<0, 0, 0, 0>>} |-> 1]
Mono(k, m) == IF k = 0 THEN Zero ELSE [x \in {m} |-> k]

SumOver(S, F(_)) == FoldSet(LAMBDA m, acc : Plus(F(m), acc), Zero, S)

\* The radial derivative on leg 1 moves the point x1 n1: r = x2 n2 - x1 n1 changes by -n1.
Derive(p, leg) ==
    SumOver(DOMAIN p, LAMBDA m :
        LET c == m[1]  a == m[2]  b == m[3]  s == m[4]  k == p[m]
            g == IF leg = 1 THEN -1 ELSE 1
        IN Plus(Mono(g * k * a, IF leg = 1 THEN <<c, a - 1, b, s>> ELSE <<c + 1, a - 1, b, s>>),
           Plus(Mono(g * k * b, IF leg = 1 THEN <<c + 1, a, b - 1, s>> ELSE <<c, a, b - 1, s>>),
                Mono(g * k,     IF leg = 1 THEN <<c, a + 1, b, s + 1>> ELSE <<c, a, b + 1, s + 1>>))))
RECURSIVE Derived(_, _, _)
Derived(p, leg, n) == IF n = 0 THEN p ELSE Derived(Derive(p, leg), leg, n - 1)

\* (1/r d/dr)^s K(q,0) = (-1)^s K(q,s), and the dot products in terms of x1, x2, c.
Sign(n) == IF n % 2 = 0 THEN 1 ELSE -1
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Expand(p) ==
    SumOver(DOMAIN p, LAMBDA m :
        LET c == m[1]  a == m[2]  b == m[3]  s == m[4]  k == Sign(s) * p[m]
        IN SumOver((0..a) \X (0..b), LAMBDA ij :      \* A = x2 c - x1, B = x2 - x1 c
            LET i == ij[1]  j == ij[2]
            IN Mono(k * Binom(a, i) * Binom(b, j) * Sign((a - i) + (b - j)),
                    <<c + i + (b - j), (a - i) + (b - j), i + j, s>>)))

\* The angular Laplacian d/dc (1 - c^2) d/dc; r^2 = x1^2 + x2^2 - 2 x1 x2 c, so dK(q,s)/dc = x1 x2 K(q,s+1).
DerC(p) == SumOver(DOMAIN p, LAMBDA m :
    Plus(Mono(p[m] * m[1], <<m[1] - 1, m[2], m[3], m[4]>>), Mono(p[m], <<m[1], m[2] + 1, m[3] + 1, m[4] + 1>>)))
TimesSin2(p) == SumOver(DOMAIN p, LAMBDA m : Plus(Mono(p[m], m), Mono(-p[m], <<m[1] + 2, m[2], m[3], m[4]>>)))
Laplacian(p) == DerC(TimesSin2(DerC(p)))
RECURSIVE Laplaced(_, _)
Laplaced(p, n) == IF n = 0 THEN p ELSE Laplaced(Laplacian(p), n - 1)

Term(e1, e2) == Laplaced(Expand(Derived(Derived(One, 1, Radial(e1)), 2, Radial(e2))), Laplace(e1) + Laplace(e2))
Power(e1, e2) == InvK(e1) + InvK(e2)
\* K(4,0) diverges for small k: a constant that no observation sees is subtracted.
Divergent(e1, e2) == Power(e1, e2) = 4 /\ \E m \in DOMAIN Term(e1, e2) : m[4] = 0

\* Plane-parallel: n1 = n2, so c = 1 and A = B = mu r.  Monomials <<power of mu r, s>>.
Plane(e1, e2) ==
    LET p == Derived(Derived(One, 1, Radial(e1)), 2, Radial(e2))
    IN SumOver(DOMAIN p, LAMBDA m : Mono(Sign(m[4]) * p[m], <<m[2] + m[3], m[4]>>))

-----------------------------------------------------------------------------
\* What the derivation has to satisfy.
Mirror(p) == [m \in {<<x[1], x[3], x[2], x[4]>> : x \in DOMAIN p} |-> p[<<m[1], m[3], m[2], m[4]>>]]
Exchange == \A e1, e2 \in Contributions : Term(e2, e1) = Mirror(Term(e1, e2))

\* A term is dimensionally homogeneous: each K(q,s) comes with the powers of distance that
\* its powers of k carry away, 2s - q + (derivatives).
Homogeneous == \A e1, e2 \in Contributions : \A m \in DOMAIN Term(e1, e2) :
                    m[2] + m[3] = 2 * m[4] - (Radial(e1) + Radial(e2))

\* At coinciding lines of sight (c = 1) only x2 - x1 matters: terms vanish with it unless they have no derivatives.
AtOne(p) == SumOver(DOMAIN p, LAMBDA m : Mono(p[m], <<0, m[2], m[3], m[4]>>))
FlatLimit == \A e1, e2 \in Local :
    AtOne(Term(e1, e2)) = SumOver(DOMAIN Plane(e1, e2), LAMBDA m :
        SumOver(0..m[1], LAMBDA i : Mono(Plane(e1, e2)[m] * Binom(m[1], i) * Sign(m[1] - i), <<0, m[1] - i, i, m[2]>>)))

(* The plane-parallel terms are Kaiser's: with j_s/x^s = the recurrences of  *)
(* spherical Bessel functions, the angular coefficients 1/5 P0 j0 - 4/7 P2 j2*)
(* + 8/35 P4 j4 of rsd-rsd and 1/3 P0 j0 - 2/3 P2 j2 of density-rsd.  Both   *)
(* sides as polynomials in mu and 1/x times j0 or j1: monomials              *)
(* <<power of mu, power of 1/x, 0 or 1>>, coefficients times 105.            *)
TimesX(p, n) == SumOver(DOMAIN p, LAMBDA m : Mono(p[m], <<m[1], m[2] + n, m[3]>>))
Scaled(p, k) == SumOver(DOMAIN p, LAMBDA m : Mono(k * p[m], m))
RECURSIVE J(_)
J(l) == IF l < 2 THEN Mono(1, <<0, 0, l>>)
        ELSE Plus(Scaled(TimesX(J(l - 1), 1), 2 * l - 1), Scaled(J(l - 2), -1))
TimesMu(p, n) == SumOver(DOMAIN p, LAMBDA m : Mono(p[m], <<m[1] + n, m[2], m[3]>>))
\* coefficients of the Legendre polynomials: 2^l P_l as <<power, coefficient>>
Legendre(l) == CASE l = 0 -> {<<0, 8>>} [] l = 1 -> {<<1, 8>>} [] l = 2 -> {<<2, 12>>, <<0, -4>>}
                 [] l = 3 -> {<<3, 20>>, <<1, -12>>} [] l = 4 -> {<<4, 35>>, <<2, -30>>, <<0, 3>>}      \* times 8
PJ(l) == SumOver(Legendre(l), LAMBDA t : Scaled(TimesMu(J(l), t[1]), t[2]))
\* a plane term in the same form: (mu r)^a k^(2s-q) j_s/x^s, in units of k^(number of derivatives - q)
PlaneJ(e1, e2) == SumOver(DOMAIN Plane(e1, e2), LAMBDA m :
    Scaled(TimesMu(TimesX(J(m[2]), m[2] - m[1]), m[1]), 840 * Plane(e1, e2)[m]))
Kaiser ==
    /\ PlaneJ("rsd", "rsd") = Plus(Scaled(PJ(0), 21), Plus(Scaled(PJ(2), -60), Scaled(PJ(4), 24)))
    /\ PlaneJ("density", "rsd") = Plus(Scaled(PJ(0), -35), Scaled(PJ(2), 70))
    /\ PlaneJ("density", "density") = Scaled(PJ(0), 105)
    /\ PlaneJ("density", "d1") = Scaled(PJ(1), -105)
    /\ PlaneJ("rsd", "d1") = Plus(Scaled(PJ(1), 63), Scaled(PJ(3), -42))
    /\ PlaneJ("d1", "d1") = Plus(Scaled(PJ(0), 35), Scaled(PJ(2), -70))

\* Plane-parallel terms see the pair from the other side as (-mu), up to the exchange.
PlaneExchange == \A e1, e2 \in Local : \A m \in DOMAIN Plane(e1, e2) :
    /\ m \in DOMAIN Plane(e2, e1)
    /\ Plane(e2, e1)[m] = Sign(m[1]) * Plane(e1, e2)[m]
    /\ m[1] % 2 = (Radial(e1) + Radial(e2)) % 2

ASSUME PlaneExchange
ASSUME Exchange
ASSUME Homogeneous
ASSUME FlatLimit
ASSUME Kaiser
=============================================================================
