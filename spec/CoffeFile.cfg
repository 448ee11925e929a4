SPECIFICATION USpec
CONSTANTS
    Whole = 8
    Masses = {0, 1, 2}
INVARIANTS Restored Again
CHECK_DEADLOCK FALSE
