SPECIFICATION GSpec
CONSTANTS
  Lengths = {}
  MaxVolume = 0
CHECK_DEADLOCK FALSE
