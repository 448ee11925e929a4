SPECIFICATION Spec
INVARIANTS Deterministic NothingTwice
PROPERTY Finishes
CHECK_DEADLOCK FALSE
CONSTANTS Workers = {1, 2, 3}
  Cells = {1, 2, 3, 4}
  Private = TRUE
  Locked = TRUE
