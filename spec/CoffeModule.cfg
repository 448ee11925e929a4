SPECIFICATION Spec
CONSTANTS
  Settings = {1, 2}
  Outputs = {1, 2}
  MaxSteps = 3
VIEW View
INVARIANTS Asked Untouched Dated
CHECK_DEADLOCK FALSE
