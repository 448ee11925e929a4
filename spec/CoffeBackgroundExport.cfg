SPECIFICATION BSpec
CONSTANTS
    Powers = {0, 1, 2, 3, 4}
    Whole = 3
    Back = 1
CHECK_DEADLOCK FALSE
