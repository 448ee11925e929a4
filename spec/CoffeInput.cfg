SPECIFICATION NSpec
INVARIANTS OwnGrowth GivenBack CrossIsPower CrossSymmetric Geometric
PROPERTY OnlyOne
CHECK_DEADLOCK FALSE
CONSTANTS
 Tables = {1, 2}
 Redshifts = {0, 1, 2}
 Universes = {1, 2}
