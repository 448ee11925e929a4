SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  MaxRuns = 0
  KindsRun = {"corrfunc", "multipoles"}
INVARIANTS ResultsOfSuccess Complete Early Others
CHECK_DEADLOCK FALSE
