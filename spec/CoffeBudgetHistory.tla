------------------------- MODULE CoffeBudgetHistory -------------------------
(* Random sequences of settings, one by one, several in one call, or in the *)
(* constructor, each with what is seen afterwards.                          *)
EXTENDS CoffeBudget, Json, Randomization

CONSTANTS Depth, Borderline

VARIABLES hist
hvars == <<u, hist>>

Draw(i) == LET s == RandomElement(Names) IN <<s, RandomElement(Domain(s))>>
RECURSIVE Fold(_, _)
Fold(w, todo) == IF todo = <<>> THEN w ELSE Fold(With(w, todo[1][1], todo[1][2]), Tail(todo))
RECURSIVE Fine(_, _)
Fine(w, todo) == todo = <<>> \/ (/\ Accepted(w, todo[1][1], todo[1][2])
                                 /\ Borderline \/ ~Edge(w, todo[1][1], todo[1][2])
                                 /\ Fine(With(w, todo[1][1], todo[1][2]), Tail(todo)))
Distinct(todo) == \A i, j \in 1..Len(todo) : i # j => todo[i][1] # todo[j][1]

\* a step that does not fit is left out
Nothing == UNCHANGED u /\ hist' = Append(hist, [e |-> "nothing"])
One(p) ==
    IF Borderline \/ ~Edge(u, p[1], p[2])
    THEN /\ Set(p[1], p[2])
         /\ hist' = Append(hist, [e |-> "set", s |-> p[1], v |-> p[2], ok |-> Accepted(u, p[1], p[2]),
                                  seen |-> Seen(IF Accepted(u, p[1], p[2]) THEN With(u, p[1], p[2]) ELSE u)])
    ELSE Nothing
Several(new, todo) ==
    LET from == IF new THEN Start ELSE u
    IN IF Distinct(todo) /\ Fine(from, todo)
       THEN /\ u' = Fold(from, todo)
            /\ hist' = Append(hist, [e |-> IF new THEN "new" ELSE "several", todo |-> todo, seen |-> Seen(Fold(from, todo))])
       ELSE Nothing
HInit == UInit /\ hist = <<>>
HNext ==
    /\ Len(hist) < Depth
    /\ \E w \in {RandomElement(1..8)} : \E p \in {<<Draw(Len(hist)), Draw(Len(hist) + 1), Draw(Len(hist) + 2), Draw(Len(hist) + 3)>>} :
         IF w <= 4 THEN One(p[1]) ELSE Several(w = 5, SubSeq(p, 1, 2 + (w % 3)))
HSpec == HInit /\ [][HNext]_hvars
Emit == Len(hist) < Depth \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
