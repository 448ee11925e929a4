----------------------- MODULE CoffeCovarianceExport -----------------------
EXTENDS CoffeCovariance, Json, IOUtils, SequencesExt
ASSUME Kaiser
ASSUME JsonSerialize(IOEnv.OUT,
    [terms |-> SetToSeq({[pops |-> q, terms |-> SetToSeq({[part |-> Part(t), power |-> Power(t), mirrored |-> Mirrored(t), factor |-> Factor(t)] : t \in Terms(q)})]
                          : q \in [Slots -> Populations]}),
     prefactor |-> Prefactor, plain |-> Plain, binned |-> Binned, outer |-> Outer, inner |-> Inner, shell |-> ShellVolume,
     volume |-> Volume, volume_integrand |-> VolumeIntegrand, average_volume |-> AverageVolume])
=============================================================================
