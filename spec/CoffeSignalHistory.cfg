SPECIFICATION HSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Depth = 26
 Pool = {"density", "rsd", "d1", "lensing"}
 AllowFlat = FALSE
 AllowExchange = FALSE
