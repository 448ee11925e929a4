------------------------------ MODULE CoffeTrace ------------------------------
(***************************************************************************)
(* Validates a recorded trace of the implementation: one event per public   *)
(* call, logged at its return with its arguments and outcome.  Returned      *)
(* numbers are logged as tokens (equal numbers, equal tokens, per kind).     *)
(*                                                                          *)
(*   new  o, val       an object whose settings are val                      *)
(*   set  o, s, v, out a setter was called with the value v; out is "ok" or  *)
(*                     "refused"                                             *)
(*   try  o, s, c, v, out   as set, with a value of class c of its domain    *)
(*   eval o, m, a, c, out   method m was called with argument a of class c;  *)
(*                     out is "ok" (finite), "refused" or "notfinite"        *)
(*   must want, out    something the caller expects independently of values  *)
(*   get  o, s, out    reading a setting returned the token out              *)
(*   gets o, out       reading every setting returned the tokens out[s]      *)
(*   ask  o, k, out    a result of kind k was returned as the token out      *)
(*   read o            something was read whose outcome is not compared      *)
(*   del  o                                                                  *)
(*   end               a history ends; the next one starts from nothing      *)
(*                                                                          *)
(* Every event must be a step of the abstract session: a result is a         *)
(* function of the settings of its own object, setters change what they are  *)
(* documented to change, refusals change nothing, reads change nothing.      *)
(* Each event that is not is recorded in `bad` and the rest is still judged. *)
(***************************************************************************)
EXTENDS CoffeValuation, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, val, seen, bad

tvars == <<l, val, seen, bad>>

Full(r) == [s \in Settings |-> IF s \in DOMAIN r THEN r[s] ELSE 0]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

TInit == l = 1 /\ val = <<>> /\ seen = <<>> /\ bad = <<>>

Ev == Trace[l]
Reject(why) == bad' = Append(bad, [i |-> l, why |-> why])
Fine == UNCHANGED bad

TNew == /\ Ev.e = "new"
        /\ val' = Put(val, Ev.o, Full(Ev.val))
        /\ Fine /\ UNCHANGED seen

TSet == /\ Ev.e = "set"
        /\ IF Ev.out = "ok" THEN val' = Put(val, Ev.o, ApplySet(val[Ev.o], Ev.s, Ev.v)) /\ Fine
           ELSE UNCHANGED val /\ Reject("an accepted value was refused")
        /\ UNCHANGED seen

TTry == /\ Ev.e = "try"
        /\ LET ok == Accepted(Ev.s, Ev.c) IN
           /\ IF ok /\ Ev.out = "ok" THEN val' = Put(val, Ev.o, ApplySet(val[Ev.o], Ev.s, Ev.v))
              ELSE UNCHANGED val
           /\ IF ok = (Ev.out = "ok") THEN Fine
              ELSE Reject(IF ok THEN "an accepted value was refused" ELSE "a refused value was accepted")
        /\ UNCHANGED seen

\* A request for a value at a point: a finite number, or a refusal where the point is not in the domain.
TEval == /\ Ev.e = "eval"
         /\ LET ok == EvalAccepted(Ev.m, Ev.a, Ev.c) IN
            IF (ok /\ Ev.out = "ok") \/ (~ok /\ Ev.out = "refused") THEN Fine
            ELSE Reject(IF Ev.out = "refused" THEN "a point of the domain was refused"
                        ELSE IF ok THEN "no finite value at a point of the domain"
                        ELSE "a point outside the domain was not refused")
         /\ UNCHANGED <<val, seen>>

\* Something that must be refused whatever the state.
TMust == /\ Ev.e = "must"
         /\ IF Ev.out = Ev.want THEN Fine ELSE Reject("expected " \o Ev.want \o ", got " \o Ev.out)
         /\ UNCHANGED <<val, seen>>

TGet == /\ Ev.e = "get"
        /\ IF val[Ev.o][Ev.s] = Ev.out THEN Fine ELSE Reject("a setting does not read back")
        /\ UNCHANGED <<val, seen>>

TGets == /\ Ev.e = "gets"
         /\ LET wrong == {s \in DOMAIN Ev.out : Ev.out[s] # val[Ev.o][s]} IN
            IF wrong = {} THEN Fine
            ELSE Reject("settings do not read back: " \o ToString(wrong))
         /\ UNCHANGED <<val, seen>>

TAsk == /\ Ev.e = "ask"
        /\ LET key == <<SameKind(Ev.k), val[Ev.o]>> IN
           IF key \in DOMAIN seen
           THEN /\ IF seen[key] = Ev.out THEN Fine ELSE Reject("a result differs from the one for the same settings")
                /\ UNCHANGED seen
           ELSE Fine /\ seen' = Put(seen, key, Ev.out)
        /\ UNCHANGED val

TRead == Ev.e = "read" /\ Fine /\ UNCHANGED <<val, seen>>

TDel == /\ Ev.e = "del"
        /\ val' = [o \in DOMAIN val \ {Ev.o} |-> val[o]]
        /\ Fine /\ UNCHANGED seen

TEnd == /\ Ev.e = "end"
        /\ val' = <<>> /\ seen' = <<>> /\ Fine

TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ TNew \/ TSet \/ TTry \/ TEval \/ TMust \/ TGet \/ TGets \/ TAsk \/ TRead \/ TDel \/ TEnd

TSpec == TInit /\ [][TNext]_tvars

\* Printed once, at the end of the trace.
Verdict == l <= Len(Trace) \/ PrintT("VERDICT " \o ToJson([n |-> Len(Trace), bad |-> bad, results |-> Cardinality(DOMAIN seen)]))
TraceConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
