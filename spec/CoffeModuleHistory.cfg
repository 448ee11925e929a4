SPECIFICATION SpecH
CONSTANTS
  Settings = {1, 2}
  Outputs = {1, 2}
  MaxSteps = 6
INVARIANTS Asked Untouched Dated Listed
CHECK_DEADLOCK FALSE
