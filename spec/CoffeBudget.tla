---------------------------- MODULE CoffeBudget ----------------------------
(***************************************************************************)
(* What the universe consists of.  All densities are whole numbers of       *)
(* shares of the critical density (Whole); h is 1 or 2 in some unit, and    *)
(* neutrinos of a mass are 4 mass / h^2 shares.                             *)
(*                                                                          *)
(* Set are: all matter, baryons, cold dark matter, radiation, h, and the    *)
(* mass of the neutrinos.  All matter is kept when one of its parts changes *)
(* (cold dark matter makes room), unless cold dark matter itself is set.    *)
(* Dark energy is what remains, and never less than nothing.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Whole, Masses

Start == [m |-> Whole \div 3, b |-> 0, g |-> 0, h |-> 2, mass |-> 0]

Names == {"omega_m", "omega_baryon", "omega_cdm", "omega_gamma", "h", "m_ncdm"}
Domain(s) == CASE s = "h" -> {1, 2} [] s = "m_ncdm" -> Masses [] OTHER -> 0..Whole

\* A budget: what is kept of it.
Nu(u)   == (4 * u.mass) \div (u.h * u.h)
Cdm(u)  == u.m - u.b - Nu(u)
Dark(u) == Whole - u.m - u.g

Now(u, s) == CASE s = "omega_m" -> u.m [] s = "omega_baryon" -> u.b [] s = "omega_cdm" -> Cdm(u)
               [] s = "omega_gamma" -> u.g [] s = "h" -> u.h [] s = "m_ncdm" -> u.mass
With(u, s, v) == CASE s = "omega_m" -> [u EXCEPT !.m = v]
                   [] s = "omega_baryon" -> [u EXCEPT !.b = v]
                   [] s = "omega_cdm" -> [u EXCEPT !.m = v + u.b + Nu(u)]
                   [] s = "omega_gamma" -> [u EXCEPT !.g = v]
                   [] s = "h" -> [u EXCEPT !.h = v]
                   [] s = "m_ncdm" -> [u EXCEPT !.mass = v]
\* Baryons alone must leave room for radiation; everything else is decided by dark energy.
Accepted(u, s, v) ==
    \/ v = Now(u, s)
    \/ IF s = "omega_baryon" THEN v + u.g <= Whole ELSE Dark(With(u, s, v)) >= 0
\* just at the limit (where rounding decides, unless the shares are exact)
Edge(u, s, v) == v # Now(u, s) /\ (IF s = "omega_baryon" THEN v + u.g = Whole ELSE s \notin {"h", "m_ncdm"} /\ Dark(With(u, s, v)) = 0)

Seen(u) == [omega_m |-> u.m, omega_baryon |-> u.b, omega_cdm |-> Cdm(u), omega_gamma |-> u.g, omega_nu |-> Nu(u),
            omega_de |-> Dark(u), h |-> u.h, m_ncdm |-> u.mass]

VARIABLE u
Set(s, v) == IF Accepted(u, s, v) THEN u' = With(u, s, v) ELSE u' = u
UInit == u = Start
UNext == \E s \in Names : \E v \in Domain(s) : Set(s, v)
USpec == UInit /\ [][UNext]_u

-----------------------------------------------------------------------------
Closed   == Seen(u).omega_cdm + Seen(u).omega_baryon + Seen(u).omega_nu + Seen(u).omega_gamma + Seen(u).omega_de = Whole
NotLess  == Dark(u) >= 0
Matter   == Cdm(u) + u.b + Nu(u) = u.m
\* what is set reads back
ReadsBack == \A s \in Names : \A v \in Domain(s) : Accepted(u, s, v) => Now(With(u, s, v), s) = v
\* setting one leaves the others, but for what has to make room
Leaves == \A s \in Names : \A v \in Domain(s) : LET w == With(u, s, v) IN
    \A t \in Names \ {s} : Now(w, t) = Now(u, t) \/ t = "omega_cdm" \/ (t = "omega_m" /\ s = "omega_cdm")
\* the order does not matter, as long as cold dark matter is not among what is set
Free == Names \ {"omega_cdm"}
Commute == \A s, t \in Free : s # t => \A v \in Domain(s) : \A w \in Domain(t) :
              (Accepted(u, s, v) /\ Accepted(With(u, s, v), t, w) /\ Accepted(u, t, w) /\ Accepted(With(u, t, w), s, v))
              => With(With(u, s, v), t, w) = With(With(u, t, w), s, v)
\* radiation and matter that fit are accepted in either order when there is room for either
NeverStuck == \A m \in 0..Whole : \A g \in 0..Whole : m + g <= Whole => Accepted(With(With(u, "omega_gamma", 0), "omega_m", m), "omega_gamma", g)
\* baryons that are part of the matter are never refused
Part == \A v \in 0..u.m : Accepted(u, "omega_baryon", v)
=============================================================================
