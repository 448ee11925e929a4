SPECIFICATION HSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Whole = 16
 Masses = {0, 1, 2, 3}
 Depth = 40
 Borderline = TRUE
