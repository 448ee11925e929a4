----------------------------- MODULE CoffeGrid ------------------------------
(***************************************************************************)
(* Bulk requests.  The result is an array with one entry for every          *)
(* combination of the configured values: first the coordinates are written, *)
(* entry after entry, by nested loops over the axes (the last one fastest); *)
(* then the entries are computed, each from its own coordinates, by several *)
(* threads in any order, in one pass per kind of integral that adds to it.  *)
(* An axis is a list: values can repeat and need not be sorted.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Axes == [ corrfunc            |-> <<"z_mean", "mu", "sep">>,
          multipoles          |-> <<"z_mean", "l", "sep">>,
          average_multipoles  |-> <<"bin", "l", "sep">>,
          covariance          |-> <<"z_mean", "l", "sep", "l", "sep">>,
          average_covariance  |-> <<"bin", "l", "sep", "l", "sep">> ]
Kinds == DOMAIN Axes
Passes == {"local", "single", "double"}

\* The i-th entry's indices: i - 1 written with the axes' lengths as bases.
RECURSIVE Volume(_)
Volume(len) == IF len = <<>> THEN 1 ELSE Head(len) * Volume(Tail(len))
RECURSIVE Digits(_, _)
Digits(i, len) == IF len = <<>> THEN <<>>
                  ELSE <<(i \div Volume(Tail(len))) + 1>> \o Digits(i % Volume(Tail(len)), Tail(len))
Expected(i, len) == Digits(i - 1, len)

CONSTANTS Lengths, MaxVolume

VARIABLES len, label, odo, added
gvars == <<len, label, odo, added>>

N == Volume(len)
Ones == [j \in 1..Len(len) |-> 1]
GInit == /\ len \in {x \in Lengths : Volume(x) <= MaxVolume}
         /\ label = <<>> /\ odo = Ones /\ added = [c \in {} |-> {}]

\* The nested loops: an odometer whose last wheel turns fastest.
RECURSIVE Turn(_, _)
Turn(o, j) == IF j = 0 THEN o
              ELSE IF o[j] < len[j] THEN [o EXCEPT ![j] = @ + 1] ELSE Turn([o EXCEPT ![j] = 1], j - 1)
Write == /\ Len(label) < N
         /\ label' = Append(label, odo)
         /\ odo' = Turn(odo, Len(len))
         /\ UNCHANGED <<len, added>>
\* A thread adds one pass's term to one entry, at the coordinates written there; passes one after the other.
Started(p) == CASE p = "local" -> TRUE
                [] p = "single" -> \A i \in 1..N : <<i, "local">> \in DOMAIN added
                [] p = "double" -> \A i \in 1..N : <<i, "single">> \in DOMAIN added
Compute == /\ Len(label) = N
           /\ \E i \in 1..N, p \in Passes :
                /\ Started(p)
                /\ <<i, p>> \notin DOMAIN added
                /\ added' = [c \in (DOMAIN added) \union {<<i, p>>} |-> IF c = <<i, p>> THEN label[i] ELSE added[c]]
           /\ UNCHANGED <<len, label, odo>>
Finished == Len(label) = N /\ Cardinality(DOMAIN added) = N * Cardinality(Passes)
GNext == Write \/ Compute \/ (Finished /\ UNCHANGED gvars)
GSpec == GInit /\ [][GNext]_gvars

-----------------------------------------------------------------------------
Ordered == \A i \in 1..Len(label) : label[i] = Expected(i, len)
Odometer == Len(label) = N => odo = Ones
Once == Len(label) = N => \A i, j \in 1..N : label[i] = label[j] => i = j
Every == Len(label) = N => {label[i] : i \in 1..N} = {x \in [1..Len(len) -> 1..3] : \A j \in 1..Len(len) : x[j] <= len[j]}
Own == \A c \in DOMAIN added : added[c] = label[c[1]]
\* Exchanging the two (multipole, separation) pairs of a covariance's entry gives another entry.
Symmetric == (Len(label) = N /\ Len(len) = 5) =>
    \A i \in 1..N : \E j \in 1..N : label[j] = <<label[i][1], label[i][4], label[i][5], label[i][2], label[i][3]>>
=============================================================================
