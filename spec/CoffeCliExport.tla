--------------------------- MODULE CoffeCliExport ---------------------------
(* What the requests read, their faults with their verdicts, and what command lines ask for. *)
EXTENDS CoffeCli, Json, IOUtils, SequencesExt
Verdicts == SetToSeq({[way |-> w, refused |-> SetToSeq({f \in AllFaults : Refused(w, f)}),
                       ignored |-> SetToSeq({f \in AllFaults : ~Refused(w, f)})] : w \in Ways})
Longer == UNION {[1..k -> Arguments] : k \in 0..3}
ASSUME JsonSerialize(IOEnv.OUT, [ways |-> Verdicts, lines |-> SetToSeq({[args |-> l, asks |-> Asks(l)] : l \in Longer})])
=============================================================================
