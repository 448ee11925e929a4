--------------------------- MODULE CoffeCliHistory --------------------------
(* Histories of runs into one folder, with what is in it after each. *)
EXTENDS CoffeCli, Json
Pick(d, S) == RandomElement(S)
Draw(d) == [k |-> Pick(d, KindsRun), p |-> Pick(d, Names), c |-> Pick(d, 1..4) # 1, f |-> Pick(d, FaultPhases \X (1..2))]
NextH == \/ Go
         \/ /\ status # "running"
            /\ \E d \in {Draw(run.n)} :
               \E f \in {IF d.f[2] = 1 THEN "none" ELSE IF d.f[1] = "background" /\ ~d.c THEN "parse" ELSE d.f[1]} :
               Begin(d.k, d.p, d.c, f)
SpecH == Init /\ [][NextH]_vars
Listed == IF status # "running" /\ run.n = MaxRuns THEN PrintT("HISTORY " \o ToJson(ran)) ELSE TRUE
=============================================================================
