----------------------------- MODULE CoffeExport -----------------------------
\* Writes the tables the harness needs: the specification is their only source.
EXTENDS CoffeValuation, TLC, Json, IOUtils

Table == [s \in Settings |->
            [domain |-> Domain(s), max |-> MaxToken(s),
             classes |-> [c \in Classes(Domain(s).type) |-> Accepted(s, c)],
             discards |-> Discards(s), readby |-> ReadBy(s)]]

\* What one setter call, and setting the old value again, make of a start.
Cover(start) == [s \in Settings |->
    [v \in 1..MaxToken(s) |->
        [once |-> ApplySet(start, s, v),
         back |-> IF s = "pk" THEN ApplySet(ApplySet(start, s, v), s, 3 - v)
                  ELSE ApplySet(ApplySet(start, s, v), s, 0)]]]

ASSUME JsonSerialize(IOEnv.OUT, [settings |-> Table, eval |-> [m \in DOMAIN EvalArgs |-> [a \in DOMAIN EvalArgs[m] |->
        [domain |-> EvalArgs[m][a], classes |-> Classes(EvalArgs[m][a].type)]]],
    start |-> [none |-> Default, pk |-> WithPk], cover |-> [none |-> Cover(Default), pk |-> Cover(WithPk)],
    samekind |-> [k \in {"cfr", "mpr", "covr"} |-> SameKind(k)]])
=============================================================================
