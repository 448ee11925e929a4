SPECIFICATION HSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Objects = {1}
  Depth = 40
