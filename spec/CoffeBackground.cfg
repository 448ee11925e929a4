SPECIFICATION BSpec
CONSTANTS
    Powers = {0, 1, 2, 3, 4}
    Whole = 8
    Back = 6
INVARIANTS Today Dilutes Faster Domination
CHECK_DEADLOCK FALSE
