SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  MaxRuns = 3
  KindsRun = {"corrfunc", "multipoles"}
INVARIANTS ResultsOfSuccess Complete Early Others
CHECK_DEADLOCK FALSE
