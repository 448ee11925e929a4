-------------------------- MODULE CoffeModuleExport -------------------------
EXTENDS CoffeModule, Json, IOUtils, SequencesExt
ASSUME JsonSerialize(IOEnv.OUT, [columns |-> Columns, integer |-> SetToSeq(Integer),
                                 lines |-> SetToSeq({[args |-> l, asks |-> Meaning(l)] : l \in Lines(4)})])
=============================================================================
