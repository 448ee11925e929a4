-------------------------- MODULE CoffeModuleHistory ------------------------
EXTENDS CoffeModule, Json
Pick(d, S) == RandomElement(S)
Draw(d) == [s |-> Pick(d, Settings), o |-> Pick(d, Outputs), k |-> Pick(d, Kinds), f |-> Pick(d, Faults), x |-> Pick(d, 1..8)]
NextH == /\ step < MaxSteps
         /\ \E d \in {Draw(step)} :
            IF d.x = 1 THEN Rewrite(d.s) ELSE Run(d.s, d.o, d.k, IF d.x < 7 THEN "none" ELSE d.f)
SpecH == Init /\ [][NextH]_vars
Listed == IF step = MaxSteps THEN PrintT("HISTORY " \o ToJson(trace)) ELSE TRUE
=============================================================================
