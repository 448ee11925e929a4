SPECIFICATION SpecH
CONSTANTS
  Names = {1, 2}
  MaxRuns = 5
  KindsRun = {"corrfunc", "multipoles", "average_multipoles", "covariance_multipoles", "covariance_average_multipoles"}
INVARIANTS ResultsOfSuccess Complete Early Others Listed
CHECK_DEADLOCK FALSE
