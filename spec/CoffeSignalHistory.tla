------------------------- MODULE CoffeSignalHistory -------------------------
(***************************************************************************)
(* Generates histories of CoffeSignal's actions and requests; each request  *)
(* carries the terms its value has to be the sum of.  With $OUT it writes   *)
(* instead the terms for every set of at most two contributions.            *)
(***************************************************************************)
EXTENDS CoffeSignal, Json, IOUtils, SequencesExt, Randomization

CONSTANTS Depth, Pool, AllowFlat, AllowExchange

VARIABLES hist
hvars == <<on, cross, flat, exchanged, hist>>

HInit == SInit /\ hist = <<[e |-> "new"]>>

Did(what) == hist' = Append(hist, what)
Ask == /\ UNCHANGED svars
       /\ \E k \in {IF RandomElement(1..3) = 1 THEN "multipole" ELSE "corrfunc"} :
            Did([e |-> "ask", k |-> k, terms |-> T, mirrored |-> exchanged, refused |-> Refused, on |-> on])
HNext ==
    /\ Len(hist) < Depth
    /\ \E w \in {RandomElement(1..100)} :
        IF w <= 46 THEN \E e \in {RandomElement(Pool)} : Toggle(e) /\ Did([e |-> "toggle", s |-> "has_" \o e, v |-> e \notin on])
        ELSE IF w <= 50 THEN Reset /\ Did([e |-> "reset"])
        ELSE IF w <= 58 THEN Only /\ Did([e |-> "toggle", s |-> "has_only_cross_correlations", v |-> ~cross])
        ELSE IF w <= 70 /\ AllowFlat /\ (AllowExchange => w <= 64) THEN \E s \in {RandomElement(Switches)} : Flat(s) /\ Did([e |-> "toggle", s |-> "has_" \o s, v |-> s \notin flat])
        ELSE IF w <= 70 /\ AllowExchange THEN Exchange /\ Did([e |-> "exchange"])
        ELSE Ask
HSpec == HInit /\ [][HNext]_hvars
Emit == Len(hist) < Depth \/ PrintT("HISTORY " \o ToJson(hist))

Small == {{e1, e2} : e1, e2 \in Contributions}
Flats(o) == IF o \subseteq PlaneParallel \union {"lensing"} THEN SUBSET Switches ELSE {{}, Switches}
Case(o, c, f) == [on |-> o, cross |-> c, flat |-> f, terms |-> Terms(o, c, f)]
Cases == {Case(o, c, f) : o \in Small, c \in BOOLEAN, f \in SUBSET Switches}
Exported == {x \in Cases : x.flat \in Flats(x.on)}
ASSUME "OUT" \in DOMAIN IOEnv => JsonSerialize(IOEnv.OUT, SetToSeq(Exported))
=============================================================================
