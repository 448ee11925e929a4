---------------------------- MODULE CoffeModule ----------------------------
(* python -m coffe: what a command line asks for, the columns of each kind  *)
(* of output, and which runs the files of a folder belong to.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Kinds == {"bg", "cf", "mp", "avg_mp", "cov", "avg_cov"}
Columns == [bg |-> <<"z", "a", "H", "conformal_H", "conformal_H_prime", "D1", "f", "comoving_distance">>,
            cf |-> <<"r", "mu", "z", "value">>,
            mp |-> <<"r", "l", "z", "value">>,
            avg_mp |-> <<"r", "l", "z_min", "z_max", "value">>,
            cov |-> <<"r1", "r2", "l1", "l2", "z", "value">>,
            avg_cov |-> <<"r1", "r2", "l1", "l2", "z_min", "z_max", "value">>]
Integer == {"l", "l1", "l2"}
\* the number of rows, of a grid with these many redshifts, bins, separations, cosines and multipoles
Rows(k, g) == CASE k = "cf" -> g.z * g.r * g.mu [] k = "mp" -> g.z * g.r * g.l [] k = "avg_mp" -> g.b * g.r * g.l
                [] k = "cov" -> g.z * g.r * g.r * g.l * g.l [] k = "avg_cov" -> g.b * g.r * g.r * g.l * g.l [] OTHER -> g.n
ASSUME \A k \in Kinds : LET c == Columns[k] IN Cardinality({c[i] : i \in DOMAIN c}) = Len(c)
\* what tells two rows of a kind apart: its coordinates
ASSUME \A k \in Kinds \ {"bg"} : Columns[k][Len(Columns[k])] = "value"

-----------------------------------------------------------------------------
(* Command lines: lists of options.                                         *)
Options == {"-s good", "-s bad", "-s absent", "-o out", "-o nowhere", "-k cf", "-k wrong", "-v", "-h", "stray"}
Is(a, o) == \E x \in {"good", "bad", "absent", "out", "nowhere", "cf", "wrong"} : a = o \o " " \o x
Last(args, o) == LET S == {i \in DOMAIN args : Is(args[i], o)} IN
                 IF S = {} THEN "" ELSE args[CHOOSE i \in S : \A j \in S : j <= i]
RECURSIVE First(_, _)
First(args, S) == IF args = <<>> THEN "" ELSE IF Head(args) \in S THEN Head(args) ELSE First(Tail(args), S)
\* an unknown kind is found when it is reached, what is missing or left over at the end
Meaning(args) ==
    LET f == First(args, {"-v", "-h", "-k wrong"}) IN
    CASE f = "-v" -> "version" [] f = "-h" -> "help" [] f = "-k wrong" -> "usage"
      [] OTHER -> IF Last(args, "-s") = "" \/ Last(args, "-o") = "" \/ Last(args, "-k") = "" \/ \E i \in DOMAIN args : args[i] = "stray" THEN "usage"
                  ELSE IF Last(args, "-s") # "-s good" \/ Last(args, "-o") # "-o out" THEN "failure" ELSE "run"
Lines(n) == UNION {[1..k -> Options] : k \in 0..n}
ASSUME \A l \in Lines(3) : Meaning(l) = "run" => Len(l) = 3 /\ {l[i] : i \in 1..3} = {"-s good", "-o out", "-k cf"}
ASSUME \A l \in Lines(2) : Meaning(<<"-v">> \o l) = "version" /\ Meaning(<<"-h">> \o l) = "help"

-----------------------------------------------------------------------------
(* Settings files which are rewritten, and runs which read them.            *)
CONSTANTS Settings, Outputs, MaxSteps
VARIABLES version, out, before, last, step, trace
vars == <<version, out, before, last, step, trace>>
None == [kind |-> "", settings |-> 0, version |-> 0]
NoRun == [kind |-> "", s |-> 0, o |-> 0, fault |-> "none"]
\* bad settings are refused when they are read, impossible ones when they are computed
Faults == {"none", "absent", "bad", "impossible", "unwritable", "kind", "missing"}
Init == /\ version = [s \in Settings |-> 1] /\ out = [o \in Outputs |-> None] /\ before = out /\ last = NoRun /\ step = 0 /\ trace = <<>>
Rewrite(s) == /\ step < MaxSteps /\ step' = step + 1
              /\ version' = [version EXCEPT ![s] = @ + 1] /\ before' = out /\ last' = NoRun
              /\ trace' = Append(trace, [e |-> "rewrite", s |-> s, run |-> NoRun, version |-> version[s] + 1, out |-> out])
              /\ UNCHANGED out
Run(s, o, k, f) == /\ step < MaxSteps /\ step' = step + 1
                   /\ last' = [kind |-> k, s |-> s, o |-> o, fault |-> f] /\ before' = out
                   /\ out' = IF f = "none" THEN [out EXCEPT ![o] = [kind |-> k, settings |-> s, version |-> version[s]]] ELSE out
                   /\ trace' = Append(trace, [e |-> "run", s |-> s, run |-> last', version |-> version[s], out |-> out'])
                   /\ UNCHANGED version
Next == \/ \E s \in Settings : Rewrite(s)
        \/ \E s \in Settings, o \in Outputs, k \in Kinds, f \in Faults : Run(s, o, k, f)
Spec == Init /\ [][Next]_vars
View == <<version, out, before, last, step>>

\* what a run leaves
Asked == last.o # 0 /\ last.fault = "none" => out[last.o] = [kind |-> last.kind, settings |-> last.s, version |-> version[last.s]]
Untouched == \A o \in Outputs : out[o] # before[o] => o = last.o /\ last.fault = "none"
Dated == \A o \in Outputs : out[o] # None => out[o].version <= version[out[o].settings]
=============================================================================
