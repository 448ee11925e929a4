SPECIFICATION Spec
CONSTANTS
  Settings = {1, 2}
  Outputs = {1, 2}
  MaxSteps = 0
INVARIANTS Asked Untouched Dated
CHECK_DEADLOCK FALSE
