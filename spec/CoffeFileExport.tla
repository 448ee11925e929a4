--------------------------- MODULE CoffeFileExport ---------------------------
EXTENDS CoffeFile, Json, SequencesExt, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, [older |-> [n \in DOMAIN Older |-> SetToSeq(Older[n])], without |-> SetToSeq(Without)])
=============================================================================
