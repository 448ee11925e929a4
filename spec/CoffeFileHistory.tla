--------------------------- MODULE CoffeFileHistory ---------------------------
(***************************************************************************)
(* Sessions with files: objects are set, written to files, read from them    *)
(* into new or existing places, and asked for results in between.  A file    *)
(* holds every setting but the spectrum the user supplied (the range of      *)
(* wavenumbers that came with it included).                                 *)
(***************************************************************************)
EXTENDS CoffeValuation, TLC, Json, Randomization

CONSTANTS Objects, Files, Depth
VARIABLES val, live, files, hist
fvars == <<val, live, files, hist>>

Slow == {"has_d2", "has_g1", "has_g2", "has_g3", "has_g4", "has_g5"}
Quick == Settings \ (Slow \union {"verbose"})
Kept(v) == [v EXCEPT !.pk = 0]
None == [s \in {} |-> 0]

FInit == /\ live = {1}
         /\ files = [f \in Files |-> None]
         /\ \E s \in Starts : /\ val = [o \in Objects |-> s]
                              /\ hist = <<[e |-> "new", o |-> 1, val |-> s]>>
FSet(o) == \E s \in {RandomElement(IF RandomElement(1..8) = 1 THEN {"pk"} ELSE Quick)} :
           \E v \in {RandomElement((IF s = "pk" THEN {1, 2} ELSE 0..MaxToken(s)))} :
              /\ val' = [val EXCEPT ![o] = ApplySet(val[o], s, v)]
              /\ hist' = Append(hist, [e |-> "set", o |-> o, s |-> s, v |-> v])
              /\ UNCHANGED <<live, files>>
FAsk(o) == \E k \in {RandomElement({"background", "power", "integral", "cf1", "mp1", "cfb", "mpb", "covb", "acovb", "biases"})} :
              /\ hist' = Append(hist, [e |-> "ask", o |-> o, k |-> k, val |-> val[o]])
              /\ UNCHANGED <<val, live, files>>
FSave(o) == \E f \in {RandomElement(Files)} :
              /\ files' = [files EXCEPT ![f] = Kept(val[o])]
              /\ hist' = Append(hist, [e |-> "save", o |-> o, f |-> f, val |-> Kept(val[o])])
              /\ UNCHANGED <<val, live>>
Saved == {f \in Files : files[f] # None}
FLoad == \E f \in {RandomElement(Saved)}, o \in {RandomElement(Objects)} :
              /\ val' = [val EXCEPT ![o] = files[f]]
              /\ live' = live \union {o}
              /\ hist' = Append(hist, [e |-> "load", o |-> o, f |-> f, val |-> files[f]])
              /\ UNCHANGED files
FNext == /\ Len(hist) < Depth
         /\ \E w \in {RandomElement(1..100)}, o \in {RandomElement(live)} :
              IF w <= 50 THEN FSet(o)
              ELSE IF w <= 62 THEN FAsk(o)
              ELSE IF w <= 80 \/ Saved = {} THEN FSave(o)
              ELSE FLoad
FSpec == FInit /\ [][FNext]_fvars
Emit == Len(hist) < Depth \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
