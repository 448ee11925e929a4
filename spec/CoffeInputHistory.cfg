SPECIFICATION HSpec
INVARIANTS OwnGrowth GivenBack CrossIsPower Emit
CHECK_DEADLOCK FALSE
CONSTANTS
 Tables = {1, 2, 3, 4, 5, 6}
 Redshifts = {0, 1, 2, 3}
 Universes = {1, 2, 3}
 Depth = 16
