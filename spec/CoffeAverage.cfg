SPECIFICATION ASpec
CONSTANTS Far = 12
INVARIANTS Exactly Evaluable Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
