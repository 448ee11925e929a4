------------------------------ MODULE CoffeCli ------------------------------
(***************************************************************************)
(* The command-line program: which settings a request reads, which of their  *)
(* faults it refuses, what it leaves in the output folder, and what its       *)
(* command line means.                                                      *)
(*                                                                          *)
(* A run goes through phases: its arguments, its settings, the computation,  *)
(* the output folder, the copy of the settings, the background table (when    *)
(* columns are asked for) and the result, in this order.  A fault ends it in  *)
(* the phase it belongs to.  The result comes last, so that a result file is   *)
(* there only if everything before it went well.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Kinds == {"corrfunc", "multipoles", "average_multipoles", "covariance_multipoles", "covariance_average_multipoles"}
Covariances == {"covariance_multipoles", "covariance_average_multipoles"}
Biases == {"galaxy_bias1", "galaxy_bias2", "magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"}

\* What decides which settings are read: the kind of output, separations by their step, the spectrum smoothed by a window,
\* the covariance by FFTLog, which bias comes from a table ("" for none), and whether the spectrum does.
Ways == [kind : Kinds, step : BOOLEAN, window : BOOLEAN, fftlog : BOOLEAN, table : Biases \cup {""}, spectrum : BOOLEAN]

Flags == {"verbose", "flatsky_local", "flatsky_local_nonlocal", "flatsky_nonlocal", "have_window", "only_cross_correlations",
          "b_derivative", "f_derivative", "b_tilde_derivative", "f_tilde_derivative"}
Always == Flags \cup {"output_type", "background_sampling", "omega_m", "omega_baryon", "omega_gamma", "w0", "wa", "separations_min",
          "separations_max", "bessel_sampling", "integration_method", "integration_sampling", "covariance_integration_method",
          "correlation_contributions", "output_path", "output_prefix", "k_min", "k_max", "input_power_spectrum"}
ByKind == [corrfunc |-> {"z_mean", "mu"}, multipoles |-> {"z_mean", "multipoles"}, average_multipoles |-> {"z_min", "z_max", "multipoles"},
           covariance_multipoles |-> {"z_mean", "deltaz", "multipoles", "density1", "density2", "fsky", "pixelsize", "covariance_window"},
           covariance_average_multipoles |-> {"zmin", "zmax", "multipoles", "density1", "density2", "fsky", "pixelsize", "covariance_window"}]
Table == [b \in Biases |-> "input_" \o b]
Flag == [b \in Biases |-> "read_" \o b]
Required(w) == Always \cup ByKind[w.kind]
               \cup {IF w.step THEN "separations_step" ELSE "separations_sampling"}
               \cup (IF w.window THEN {"window_size"} ELSE {})
               \cup (IF w.fftlog THEN {"covariance_integration_bins", "covariance_interpolation_method"} ELSE {})
               \cup {IF b = w.table THEN Table[b] ELSE b : b \in Biases}
Optional == {"interpolation", "output_background"} \cup {Flag[b] : b \in Biases}
Reads(w) == Required(w) \cup Optional \cup {"separations_step", "separations_sampling"}
Settings == UNION {Reads(w) : w \in Ways}

-----------------------------------------------------------------------------
(* Faults of single settings, by name; the harness knows values for them.     *)
Number == {"text"}
List == {"scalar", "empty"}
Numbers == List \cup {"text"}
Faults(s) ==
    CASE s \in {"output_type", "interpolation", "covariance_integration_method", "covariance_interpolation_method"} -> Number \cup {"zero", "beyond"}
      [] s = "integration_method" -> Number \cup {"negative", "beyond"}
      [] s \in {"background_sampling", "bessel_sampling", "integration_sampling"} -> Number \cup {"zero", "negative"}
      [] s = "covariance_integration_bins" -> Number \cup {"zero", "negative", "odd"}
      [] s \in {"separations_step", "separations_sampling"} -> Number \cup {"zero", "negative", "both"}
      [] s = "b_derivative" -> Number \cup {"two"}
      [] s \in Flags \cup Biases \cup {Flag[b] : b \in Biases} \cup {"covariance_window", "omega_baryon", "w0", "wa"} -> Number
      [] s \in {"omega_m", "omega_gamma"} -> Number \cup {"beyond"}
      [] s = "separations_min" -> Number \cup {"negative", "beyond"}
      [] s = "separations_max" -> Number \cup {"below"}
      [] s = "k_min" -> Number \cup {"zero", "negative", "beyond"}
      [] s = "k_max" -> Number \cup {"zero", "negative", "below"}
      [] s = "window_size" -> Number \cup {"zero", "negative", "beyond"}
      [] s = "z_mean" -> Numbers \cup {"zero", "negative", "beyond"}
      [] s = "mu" -> Numbers \cup {"below", "beyond"}
      [] s = "multipoles" -> Numbers \cup {"negative", "beyond"}
      [] s \in {"z_min", "zmin"} -> Numbers \cup {"zero", "negative", "beyond", "more"}
      [] s \in {"z_max", "zmax"} -> Numbers \cup {"below", "beyond", "more"}
      [] s \in {"density1", "density2", "pixelsize"} -> Numbers \cup {"zero", "negative", "more"}
      [] s = "deltaz" -> Numbers \cup {"zero", "negative", "beyond", "more", "wide"}
      [] s = "fsky" -> Numbers \cup {"zero", "negative", "beyond", "more"}
      [] s = "correlation_contributions" -> List \cup {"number", "unknown"}
      [] s = "output_background" -> {"scalar", "number", "unknown", "toomany"}
      [] s \in {"output_path", "output_prefix"} -> {"number", "long"}
      [] s = "input_power_spectrum" -> {"number", "unsorted", "short"}
      [] s \in {Table[b] : b \in Biases} -> {"number", "unreadable", "folder", "nothing", "unsorted", "short", "half", "words"}
AllFaults == UNION {{<<s, f>> : f \in Faults(s) \cup {"missing"}} : s \in Settings}
\* Settings which are not read do not matter, whatever they hold.
Refused(w, f) == /\ f[1] \in Reads(w)
                 \* without its flag a table is not read, but the number which it replaces
                 /\ f[2] = "missing" => f[1] \in Required(w) \cup {Flag[b] : b \in Biases \cap {w.table}}

ASSUME \A w \in Ways : \A s \in Reads(w) : Faults(s) # {}
ASSUME \A f \in AllFaults : f[2] # "missing" => \E w \in Ways : Refused(w, f)
\* the settings which only some requests read
ASSUME {s \in Settings : \A w \in Ways : s \in Reads(w)} = (Always \cup Optional \cup {"separations_step", "separations_sampling"})

-----------------------------------------------------------------------------
(* The command line: what a list of arguments asks for.                      *)
Arguments == {"-h", "-v", "-C", "-s good", "-s absent", "-s wrong", "-s folder", "-n 1", "-n 3", "-n 0", "-n -2", "-n many"}
RECURSIVE Meaning(_, _, _)
Meaning(args, s, n) ==
    IF args = <<>> THEN (IF s = "" THEN "usage" ELSE IF n \in {"-n 0", "-n -2", "-n many"} \/ s # "-s good" THEN "failure" ELSE "run")
    ELSE CASE Head(args) = "-h" -> "help" [] Head(args) = "-v" -> "version" [] Head(args) = "-C" -> "copyright"
           [] Head(args) \in {"-s good", "-s absent", "-s wrong", "-s folder"} -> Meaning(Tail(args), Head(args), n)
           [] OTHER -> Meaning(Tail(args), s, Head(args))
Asks(args) == Meaning(args, "", "")
Lines == UNION {[1..k -> Arguments] : k \in 0..2}
ASSUME \A l \in Lines : \A a \in {"-h", "-v", "-C"} : Asks(<<a>> \o l) = Asks(<<a>>)
ASSUME \A l \in Lines : Asks(l) \in {"run", "failure"} => Asks(l \o <<"-h">>) = "help"

-----------------------------------------------------------------------------
(* Runs into one folder.                                                    *)
CONSTANTS Names, MaxRuns, KindsRun
Files == {"settings", "background"} \cup Kinds
Phases == <<"arguments", "parse", "compute", "folder", "settings", "background", "result">>
VARIABLES run, at, status, disk, before, ran
vars == <<run, at, status, disk, before, ran>>
Nothing == [p \in Names |-> [f \in Files |-> 0]]
NoRun == [n |-> 0, kind |-> "corrfunc", prefix |-> 1, columns |-> TRUE, fault |-> "none"]

Init == /\ run = NoRun /\ at = 0 /\ status = "idle" /\ disk = Nothing /\ before = Nothing /\ ran = <<>>
\* faults in the phases which can have them; "computing" are requests which only fail once they are computed
FaultPhases == {"none", "arguments", "parse", "compute", "folder", "settings", "background", "result"}
Begin(k, p, c, f) == /\ status # "running" /\ run.n < MaxRuns
                     /\ f = "background" => c
                     /\ run' = [n |-> run.n + 1, kind |-> k, prefix |-> p, columns |-> c, fault |-> f]
                     /\ at' = 1 /\ status' = "running" /\ before' = disk
                     /\ UNCHANGED <<disk, ran>>
End(s) == /\ status' = s
          /\ ran' = Append(ran, [run |-> run, status |-> s, disk |-> disk'])
          /\ UNCHANGED <<run, before>>
Written == CASE Phases[at] = "settings" -> [disk EXCEPT ![run.prefix]["settings"] = run.n]
             [] Phases[at] = "background" /\ run.columns -> [disk EXCEPT ![run.prefix]["background"] = run.n]
             [] Phases[at] = "result" -> [disk EXCEPT ![run.prefix][run.kind] = run.n]
             [] OTHER -> disk
Go == /\ status = "running"
      /\ IF run.fault = Phases[at] THEN /\ disk' = disk /\ at' = at /\ End("failure")
         ELSE IF at = Len(Phases) THEN /\ disk' = Written /\ at' = at /\ End("success")
         ELSE /\ disk' = Written /\ at' = at + 1 /\ UNCHANGED <<run, status, before, ran>>
Next == Go \/ \E k \in KindsRun, p \in Names, c \in BOOLEAN, f \in FaultPhases : Begin(k, p, c, f)
Spec == Init /\ [][Next]_vars

Succeeded == {ran[i].run.n : i \in {j \in DOMAIN ran : ran[j].status = "success"}}
\* result files are those of runs which succeeded
ResultsOfSuccess == \A p \in Names, k \in Kinds : disk[p][k] = 0 \/ disk[p][k] \in Succeeded \/ (status = "running" /\ disk[p][k] = run.n)
\* a run which succeeded has left everything it was asked for
Complete == status = "success" => /\ disk[run.prefix][run.kind] = run.n /\ disk[run.prefix]["settings"] = run.n
                                  /\ run.columns => disk[run.prefix]["background"] = run.n
\* nothing is written before all is computed
Early == status = "failure" /\ run.fault \in {"arguments", "parse", "compute", "folder"} => disk = before
\* other files stay
Others == \A p \in Names, f \in Files : disk[p][f] # before[p][f] => p = run.prefix /\ f \in {"settings", "background", run.kind}
=============================================================================
