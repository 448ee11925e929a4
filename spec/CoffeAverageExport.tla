------------------------- MODULE CoffeAverageExport -------------------------
EXTENDS CoffeAverage, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, [weight |-> Weight, from |-> From, to |-> To])
=============================================================================
