SPECIFICATION NSpec


CHECK_DEADLOCK FALSE
CONSTANTS
 Tables = {1, 2}
 Redshifts = {0, 1, 2}
 Universes = {1, 2}
