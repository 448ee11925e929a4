------------------------ MODULE CoffeIntegralsExport ------------------------
EXTENDS CoffeIntegrals, Json, IOUtils, SequencesExt
ASSUME Bessel
ASSUME Cancels
ASSUME SlopeHolds
ASSUME Cardinality(Relations) >= 4
All == Regular \union {Divergent}
ASSUME JsonSerialize(IOEnv.OUT,
    [integrals |-> SetToSeq({[n |-> p[1], l |-> p[2], k |-> KPower(p[1], p[2]), r |-> RPower(p[1], p[2]), zero |-> AtZero(p[1], p[2]),
                              divergent |-> p = Divergent, units |-> Scaling(p[1], p[2])] : p \in All}),
     relations |-> SetToSeq({Parts(p[1], p[2]) : p \in Relations}),
     slopes |-> SetToSeq({[of |-> p, is |-> <<p[1] - 1, p[2] + 1>>, r |-> SlopePower(p[1], p[2])] : p \in Slopes}),
     divergents |-> SetToSeq(Divergents), switches |-> SetToSeq(Switches)])
=============================================================================
