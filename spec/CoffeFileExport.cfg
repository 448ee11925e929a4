SPECIFICATION USpec
CONSTANTS
    Whole = 8
    Masses = {0, 1, 2}

CHECK_DEADLOCK FALSE
