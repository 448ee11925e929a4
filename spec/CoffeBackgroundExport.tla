----------------------- MODULE CoffeBackgroundExport -----------------------
EXTENDS CoffeBackground, Json, IOUtils
ASSUME IsDerivative /\ OneForm /\ MatterOnly /\ SeriesSolves
ASSUME JsonSerialize(IOEnv.OUT,
    [scale_factor |-> ScaleFactor, hubble_rate |-> Hubble, hubble_rate_conformal |-> Conformal,
     hubble_rate_conformal_derivative |-> ConformalDerivative, distance |-> DistanceIntegrand,
     begin |-> Begin, w |-> W, matter |-> Matter, growth |-> Growth2, rate |-> Rate, series |-> SeriesRatio,
     maximum_separation |-> MaximumSeparation])
=============================================================================
