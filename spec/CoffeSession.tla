----------------------------- MODULE CoffeSession -----------------------------
(***************************************************************************)
(* The design of one session: which results are kept, and whether what is  *)
(* kept can be out of date.  Whether a kept result reflects the current     *)
(* value of one setting does not depend on any other setting, so the model  *)
(* follows one setting (`focus`, chosen initially, every one is explored)   *)
(* exactly, while all the others change freely around it.                   *)
(***************************************************************************)
EXTENDS CoffeTables

VARIABLES focus,    \* the setting that is followed
          kept,     \* stage -> "no" | "fresh" | "stale", with respect to focus
          shown     \* what the last returned result was: "none" | "fresh" | "stale"

vars == <<focus, kept, shown>>

Init == /\ focus \in Settings
        /\ kept = [s \in Stages |-> "no"]
        /\ shown = "none"

\* Does a stage, built now, depend on the focus through its own reads?
Touches(st) == st \in ReadBy(focus)

\* ... or through the stages it is built from?
RECURSIVE Reads(_)
Reads(st) == Touches(st) \/ \E d \in Needs[st] : Uses(st, d, focus) /\ Reads(d)

\* Build a stage and everything it needs that is not kept.
RECURSIVE BuildAll(_, _)
Missing(k, st) == {d \in Needs[st] : k[d] = "no"}
BuildOne(k, st) ==   \* all Needs present in k
    [k EXCEPT ![st] = IF \E d \in Needs[st] : Uses(st, d, focus) /\ k[d] = "stale" THEN "stale" ELSE "fresh"]
BuildAll(k, st) ==
    IF k[st] # "no" THEN k
    ELSE LET m == Missing(k, st) IN
         IF m = {} THEN BuildOne(k, st)
         ELSE LET d == CHOOSE x \in m : TRUE IN BuildAll(BuildAll(k, d), st)

\* The focus gets another value.
ChangeFocus ==
    /\ kept' = [s \in Stages |->
          IF s \in Discards(focus) THEN "no"
          ELSE IF kept[s] = "no" THEN "no"
          ELSE IF Reads(s) THEN "stale"
          ELSE kept[s]]
    /\ shown' = "none" /\ UNCHANGED focus

\* Some other setting is changed: it discards its own stages.
ChangeOther ==
    \E t \in Settings \ {focus} :
        /\ kept' = [s \in Stages |-> IF s \in Discards(t) THEN "no" ELSE kept[s]]
        /\ shown' = "none" /\ UNCHANGED focus

\* A result is asked for: it and what it needs are built unless kept.
Ask ==
    \E st \in Stages :
        LET k == BuildAll(kept, st) IN
        /\ kept' = k
        /\ shown' = k[st]
        /\ UNCHANGED focus

\* recompute=True: the stages it needs are rebuilt, then the result.
Recompute ==
    \E st \in Results :
        LET k0 == [s \in Stages |-> IF s = st \/ s \in Needs[st] THEN "no" ELSE kept[s]]
            k  == BuildAll(k0, st) IN
        /\ kept' = k /\ shown' = k[st] /\ UNCHANGED focus

Next == ChangeFocus \/ ChangeOther \/ Ask \/ Recompute

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ focus \in Settings
          /\ kept \in [Stages -> {"no", "fresh", "stale"}]
          /\ shown \in {"none", "fresh", "stale"}

\* P01: what is returned always reflects the current value of every setting.
NeverStale == shown # "stale"

\* Nothing out of date is even kept.
NothingStaleKept == \A s \in Stages : kept[s] # "stale"

\* A result that is kept has everything it was built from kept or discarded later, and
\* asking again without a change discards nothing.
AskKeeps == [][Ask => \A s \in Stages : kept[s] # "no" => kept'[s] = kept[s]]_vars

=============================================================================
