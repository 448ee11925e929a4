SPECIFICATION FSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Objects = {1, 2, 3}
 Files = {1, 2}
 Depth = 40
