SPECIFICATION Spec
INVARIANTS Deterministic NothingTwice
CHECK_DEADLOCK FALSE
CONSTANTS Workers = {1, 2}
  Cells = {1, 2, 3}
  Private = TRUE
  Locked = FALSE
