-------------------------- MODULE CoffeGridExport ---------------------------
(* For the shapes in $SHAPES ([kind, lengths by axis]): the expected indices.*)
EXTENDS CoffeGrid, Json, IOUtils
Asked == JsonDeserialize(IOEnv.SHAPES)
Of(a) == LET x == [j \in 1..Len(Axes[a.kind]) |-> a.lengths[Axes[a.kind][j]]]
         IN [kind |-> a.kind, axes |-> Axes[a.kind], entries |-> [i \in 1..Volume(x) |-> Expected(i, x)]]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(Asked) |-> Of(Asked[i])])
=============================================================================
