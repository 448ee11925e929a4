----------------------------- MODULE CoffeHistory -----------------------------
(***************************************************************************)
(* Generates histories of sessions: sequences of settings, reads and        *)
(* requests on one or more objects.  What an object returns is a function   *)
(* of its current settings alone, so the abstract state is just the         *)
(* valuation of every setting; values are abstract tokens.                  *)
(* Run with tlc -simulate; every behaviour of length Depth is printed.      *)
(***************************************************************************)
EXTENDS CoffeValuation, TLC, Json, IOUtils, Randomization

CONSTANTS Objects, Depth

VARIABLES val, live, hist

hvars == <<val, live, hist>>

\* What can be asked for; "cheap" ones are asked for more often.
Cheap  == {"background", "power", "integral", "cf1", "mp1", "cfb", "mpb", "covb", "biases", "cfr", "mpr", "covr"}
Costly == {"ampb", "acovb"}
\* Settings under which everything takes seconds rather than milliseconds.
SlowSettings == {"has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5"}
Quick == Settings \ (SlowSettings \union {"verbose"})

HInit == /\ live = {CHOOSE o \in Objects : TRUE}
         /\ \E s \in Starts :
               /\ val = [o \in Objects |-> s]
               /\ hist = <<[e |-> "new", o |-> CHOOSE o \in Objects : TRUE, val |-> s]>>

HSet(o) ==
    \* (a bound variable is drawn once; a LET would be drawn again at each use)
    \E s \in {RandomElement(Quick)} :
    \E v \in {RandomElement((IF s = "pk" THEN {1, 2} ELSE 0..MaxToken(s)))} :
       /\ val' = [val EXCEPT ![o] = ApplySet(val[o], s, v)]
       /\ hist' = Append(hist, [e |-> "set", o |-> o, s |-> s, v |-> v])
       /\ UNCHANGED live

HAsk(o) ==
    \E k \in {IF RandomElement(1..10) <= 8 THEN RandomElement(Cheap) ELSE RandomElement(Costly)} :
       /\ hist' = Append(hist, [e |-> "ask", o |-> o, k |-> k, val |-> val[o]])
       /\ UNCHANGED <<val, live>>

HRead(o) ==
    \E r \in {RandomElement({"all", "parameters", "file", "get", "biases", "repr"})} :
    \E s \in {RandomElement(Settings \ {"pk"})} :
       /\ hist' = Append(hist, [e |-> "read", o |-> o, r |-> r, s |-> s])
       /\ UNCHANGED <<val, live>>

HNew(o) == \E s \in {RandomElement(Starts)} :
           /\ live' = live \union {o}
           /\ val' = [val EXCEPT ![o] = s]
           /\ hist' = Append(hist, [e |-> "new", o |-> o, val |-> s])

HDel(o) == /\ Cardinality(live) > 1
           /\ live' = live \ {o}
           /\ hist' = Append(hist, [e |-> "del", o |-> o])
           /\ UNCHANGED val

HNext ==
    /\ Len(hist) < Depth
    /\ \E w \in {RandomElement(1..100)} :
       \E o \in {RandomElement(live)} :
          IF w <= 42 THEN HSet(o)
          ELSE IF w <= 80 THEN HAsk(o)
          ELSE IF w <= 92 THEN HRead(o)
          ELSE IF Objects \ live # {} THEN HNew(CHOOSE x \in Objects \ live : TRUE)
          ELSE IF Cardinality(live) > 1 THEN HDel(o)
          ELSE HAsk(o)

HSpec == HInit /\ [][HNext]_hvars

Emit == Len(hist) < Depth \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
