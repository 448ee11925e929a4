------------------------------ MODULE CoffeFile ------------------------------
(***************************************************************************)
(* A settings file: what an object's settings become when they are written   *)
(* and read again.                                                          *)
(*                                                                          *)
(* Reading starts from a new object and applies the file's settings one by   *)
(* one, each through its setter, which may refuse it because of what the     *)
(* object holds at that time.  The densities are those of CoffeBudget: they  *)
(* alone depend on one another.  Whatever session wrote the file, no step    *)
(* may be refused, and what is read is what was written.                    *)
(*                                                                          *)
(* No order of the densities does it in one pass: matter and radiation that  *)
(* fit together need not fit with the new object's.  The radiation of the    *)
(* new object goes first.                                                   *)
(***************************************************************************)
EXTENDS CoffeBudget

Written(w) == [s \in Free |-> Now(w, s)]
Steps(f) == << <<"omega_gamma", 0>>, <<"omega_baryon", f["omega_baryon"]>>, <<"omega_m", f["omega_m"]>>,
               <<"omega_gamma", f["omega_gamma"]>>, <<"h", f["h"]>>, <<"m_ncdm", f["m_ncdm"]>> >>
RECURSIVE Apply(_, _)
Apply(w, steps) == IF steps = <<>> THEN [ok |-> TRUE, u |-> w]
                   ELSE IF Accepted(w, steps[1][1], steps[1][2]) THEN Apply(With(w, steps[1][1], steps[1][2]), Tail(steps))
                   ELSE [ok |-> FALSE, u |-> w]
\* the densities of any object may be there before reading, not only those it starts with
Restored == Apply(Start, Steps(Written(u))) = [ok |-> TRUE, u |-> u]
Again == LET r == Apply(Start, Steps(Written(u))).u IN Written(r) = Written(u)

\* Each order in one pass is refused for some universe.
Orders == {p \in [1..3 -> {"omega_baryon", "omega_m", "omega_gamma"}] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
InOrder(w, p) == Apply([Start EXCEPT !.g = 1], [i \in 1..3 |-> <<p[i], Now(w, p[i])>>])
OnePassFails == \A p \in Orders : \E m \in 0..Whole, g \in 0..Whole :
                   m + g <= Whole /\ ~InOrder([Start EXCEPT !.m = m, !.g = g], p).ok
ASSUME OnePassFails

-----------------------------------------------------------------------------
(* Files people write: older names stand for settings, newer names win.      *)
Older == [only_cross_correlations |-> {"has_only_cross_correlations"}, covariance_z_mean |-> {"z_mean"},
          covariance_deltaz |-> {"deltaz"}, covariance_fsky |-> {"fsky"}, covariance_pixelsize |-> {"pixelsize"},
          covariance_zmin |-> {"z_min"}, covariance_zmax |-> {"z_max"}, covariance_window |-> {"has_binned_covariance"},
          covariance_density |-> {"number_density1", "number_density2"}, multipoles |-> {"l"},
          flatsky_local |-> {"has_flatsky_local"}, flatsky_local_nonlocal |-> {"has_flatsky_local_nonlocal"},
          flatsky_nonlocal |-> {"has_flatsky_nonlocal"}]
Without == {"covariance_step_size", "covariance_minimum_separation", "covariance_integration_bins"}      \* no longer of effect
OlderNames(s) == {n \in DOMAIN Older : s \in Older[n]}
\* f: names in the file -> values; what the setting s is when it has been read (0: as in a new object)
Means(f, s) == IF s \in DOMAIN f THEN f[s]
               ELSE IF \E n \in OlderNames(s) : n \in DOMAIN f THEN f[CHOOSE n \in OlderNames(s) : n \in DOMAIN f] ELSE 0
\* An older name never stands for two settings that can be told apart by another older name.
Unambiguous == \A m, n \in DOMAIN Older : m # n => Older[m] \intersect Older[n] = {}
ASSUME Unambiguous
\* Writing what was read and reading it gives the same.
Named == UNION {Older[n] : n \in DOMAIN Older}
Rewrite(f) == [s \in Named |-> Means(f, s)]
ASSUME \A n \in DOMAIN Older : \A v \in {1, 2} : LET f == (n :> v) IN \A s \in Named : Means(Rewrite(f), s) = Means(f, s)
=============================================================================
