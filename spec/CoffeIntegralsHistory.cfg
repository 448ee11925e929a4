SPECIFICATION HSpec
INVARIANT Current
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxL = 4
 Upto = 3
 Depth = 24
 Costly = 2
