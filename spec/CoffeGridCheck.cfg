SPECIFICATION GSpec
CONSTANTS
  Lengths <- Shapes
  MaxVolume = 8
INVARIANTS Ordered Odometer Once Every Own Symmetric
CHECK_DEADLOCK FALSE
