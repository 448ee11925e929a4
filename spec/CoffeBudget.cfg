SPECIFICATION USpec
CONSTANTS
    Whole = 8
    Masses = {0, 1, 2}
INVARIANTS Closed NotLess Matter ReadsBack Leaves Commute NeverStuck Part
CHECK_DEADLOCK FALSE
