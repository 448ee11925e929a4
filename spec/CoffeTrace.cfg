SPECIFICATION TSpec
INVARIANT Verdict
POSTCONDITION TraceConsumed
CHECK_DEADLOCK FALSE
