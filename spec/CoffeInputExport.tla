-------------------------- MODULE CoffeInputExport --------------------------
EXTENDS CoffeInput, Json, IOUtils
ASSUME Forms
ASSUME JsonSerialize(IOEnv.OUT, [combos |-> Listed, degrees |-> Degrees, relations |-> [d \in {"0", "1", "2"} |-> Relation(CASE d = "0" -> 0 [] d = "1" -> 1 [] OTHER -> 2)]])
=============================================================================
