SPECIFICATION CSpec
INVARIANTS Reached OnTheWay Counts Symmetric Mirrors NoOdd Variance
PROPERTY Arrives
