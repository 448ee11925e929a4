SPECIFICATION DSpec
INVARIANT Confluent
INVARIANT Dimension
INVARIANT Mirrored
CHECK_DEADLOCK FALSE
