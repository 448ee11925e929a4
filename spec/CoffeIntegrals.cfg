SPECIFICATION ISpec
INVARIANT Current
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxL = 4
 Upto = 3
