--------------------------- MODULE CoffeGridCheck ---------------------------
EXTENDS CoffeGrid
Pairs == {<<a, b, c, b, c>> : a, b, c \in 1..3}
Shapes == ([1..3 -> 1..3]) \union Pairs
\* The order alone, for every shape.
Bijective(x) == Cardinality({Expected(i, x) : i \in 1..Volume(x)}) = Volume(x)
ASSUME \A x \in Shapes : Bijective(x)
=============================================================================
