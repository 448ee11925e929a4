SPECIFICATION ASpec
CONSTANTS Far = 1
CHECK_DEADLOCK FALSE
