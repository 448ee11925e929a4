----------------------- MODULE CoffeIntegralsHistory -----------------------
(* Random histories of switches, new spectra and questions.                *)
EXTENDS CoffeIntegrals, Json, Randomization
CONSTANTS Depth, Costly
VARIABLES hist, spectrum, costs
hvars == <<on, kept, hist, spectrum, costs>>

Question(i) == LET w == RandomElement(1..(6 + 0 * i)) IN
    CASE w <= 3 -> RandomElement(Regular)
      [] w = 4 -> Divergent
      [] OTHER -> <<RandomElement(-3..5), RandomElement(-1..5)>>
Ask(q) ==
    /\ LET there == Asked(q[1], q[2])
           dear == kept = {} /\ on \intersect Divergents # {}
       IN /\ ~dear \/ costs < Costly
          /\ costs' = IF dear THEN costs + 1 ELSE costs
          /\ kept' = IF kept = {} THEN Needed(on) ELSE kept
          /\ hist' = Append(hist, [e |-> "ask", n |-> q[1], l |-> q[2], ok |-> there, spectrum |-> spectrum])
    /\ UNCHANGED <<on, spectrum>>
Flip(e) == Turn(e) /\ hist' = Append(hist, [e |-> "set", s |-> e, v |-> e \in on']) /\ UNCHANGED <<spectrum, costs>>
New == /\ spectrum' = 3 - spectrum /\ kept' = {} /\ UNCHANGED <<on, costs>>
       /\ hist' = Append(hist, [e |-> "spectrum", of |-> 3 - spectrum])
HInit == IInit /\ hist = <<>> /\ spectrum = 1 /\ costs = 0
Nothing == UNCHANGED <<on, kept, spectrum, costs>> /\ hist' = Append(hist, [e |-> "nothing"])
HNext ==
    /\ Len(hist) < Depth
    /\ \E w \in {RandomElement(1..10)} : \E q \in {Question(Len(hist))} : \E d \in {RandomElement(Switches)} :
         IF w <= 6 THEN (IF kept = {} /\ on \intersect Divergents # {} /\ costs >= Costly THEN Nothing ELSE Ask(q))
         ELSE IF w <= 8 THEN Flip(d)
         ELSE IF w = 9 THEN Flip(RandomElement(Divergents)) ELSE New
HSpec == HInit /\ [][HNext]_hvars
Emit == Len(hist) < Depth \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
