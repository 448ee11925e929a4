SPECIFICATION Spec
INVARIANTS TypeOK NeverStale NothingStaleKept
PROPERTY AskKeeps
CHECK_DEADLOCK FALSE
