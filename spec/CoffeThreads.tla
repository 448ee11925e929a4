----------------------------- MODULE CoffeThreads -----------------------------
(***************************************************************************)
(* The parallel loops over a grid.  Every worker claims cells, evaluates    *)
(* the cell's expression in several steps through scratch memory, and       *)
(* stores the value in the cell's own slot; the loop's other output is a     *)
(* sum over cells.  With scratch private to a worker and sums combined      *)
(* under a lock, every schedule gives what one worker gives.                *)
(* Private = FALSE or Locked = FALSE are the designs which do not.          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Workers, Cells, Private, Locked

VARIABLES todo,      \* cells nobody has claimed
          pc, cell,  \* per worker
          scratch,   \* per worker, or one for all (index 0)
          slot,      \* cell -> value (0: nothing)
          sum, seen  \* the reduction, and what a worker read of it

vars == <<todo, pc, cell, scratch, slot, sum, seen>>

F(c) == c * c + 1                    \* the value of a cell
Mem(w) == IF Private THEN w ELSE 0

Init == /\ todo = Cells
        /\ pc = [w \in Workers |-> "claim"]
        /\ cell = [w \in Workers |-> 0]
        /\ scratch = [m \in Workers \union {0} |-> 0]
        /\ slot = [c \in Cells |-> 0]
        /\ sum = 0
        /\ seen = [w \in Workers |-> 0]

Claim(w) == /\ pc[w] = "claim" /\ todo # {}
            /\ \E c \in todo : /\ cell' = [cell EXCEPT ![w] = c]
                               /\ todo' = todo \ {c}
            /\ pc' = [pc EXCEPT ![w] = "load"]
            /\ UNCHANGED <<scratch, slot, sum, seen>>

Load(w) == /\ pc[w] = "load"
           /\ scratch' = [scratch EXCEPT ![Mem(w)] = cell[w]]
           /\ pc' = [pc EXCEPT ![w] = "store"]
           /\ UNCHANGED <<todo, cell, slot, sum, seen>>

Store(w) == /\ pc[w] = "store"
            /\ slot' = [slot EXCEPT ![cell[w]] = F(scratch[Mem(w)])]
            /\ pc' = [pc EXCEPT ![w] = "fetch"]
            /\ UNCHANGED <<todo, cell, scratch, sum, seen>>

Fetch(w) == /\ pc[w] = "fetch"
            /\ Locked => \A v \in Workers \ {w} : pc[v] # "add"
            /\ seen' = [seen EXCEPT ![w] = sum]
            /\ pc' = [pc EXCEPT ![w] = "add"]
            /\ UNCHANGED <<todo, cell, scratch, slot, sum>>

Add(w) == /\ pc[w] = "add"
          /\ sum' = seen[w] + F(cell[w])
          /\ pc' = [pc EXCEPT ![w] = "claim"]
          /\ UNCHANGED <<todo, cell, scratch, slot, seen>>

Next == \E w \in Workers : Claim(w) \/ Load(w) \/ Store(w) \/ Fetch(w) \/ Add(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Load(w) \/ Store(w) \/ Fetch(w) \/ Add(w) \/ Claim(w))

RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN F(c) + Total(S \ {c})

Done == todo = {} /\ \A w \in Workers : pc[w] = "claim"
\* What a single worker computes, whatever the schedule and the number of workers.
Deterministic == Done => /\ \A c \in Cells : slot[c] = F(c)
                         /\ sum = Total(Cells)
NothingTwice  == \A v, w \in Workers : v # w /\ pc[v] # "claim" /\ pc[w] # "claim" => cell[v] # cell[w]
Finishes == <>Done
=============================================================================
