----------------------------- MODULE CoffeTables -----------------------------
(***************************************************************************)
(* The interface of a Coffe session: every setting, the domain of its       *)
(* values, the stages of the computation whose kept results its setter      *)
(* discards, and the stages that read it.  All other modules share these    *)
(* tables; the harness reads them through CoffeExport.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* Stages of the computation, each of which an object keeps until discarded.
Results == {"cf", "mp", "amp", "cov", "acov"}
Stages  == {"bg", "pk", "int"} \union Results
Signal  == {"cf", "mp", "amp"}
Covs    == {"cov", "acov"}

\* What a stage is built from.
Needs == [ bg |-> {}, pk |-> {}, int |-> {"bg", "pk"},
           cf |-> {"bg", "pk", "int"}, mp |-> {"bg", "pk", "int"}, amp |-> {"bg", "pk", "int"},
           cov |-> {"bg", "pk"}, acov |-> {"bg", "pk"} ]

\* The relativistic biases enter the background's tables only through the Doppler
\* prefactors, which the integrals and the covariance do not use.
Uses(st, d, s) == ~(st \in {"int", "cov", "acov"} /\ d = "bg" /\
                    s \in {"magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"})
                 /\ ~(st = "cf" /\ d = "int" /\ s = "l")   \* the flat-sky integrals of the multipoles

-----------------------------------------------------------------------------
\* Settings, by kind.
OmegaNames   == {"omega_m", "omega_baryon", "omega_gamma"}
CosmoNames   == OmegaNames \union {"h", "w0", "wa", "n_s", "T_cmb", "N_ur", "m_ncdm", "YHe", "N_ncdm"}
ClassNames   == {"k_per_decade_for_bao", "k_per_decade_for_pk", "start_large_k_at_tau_h_over_tau_k",
                 "l_max_g", "l_max_ur", "tol_perturb_integration",
                 "radiation_streaming_trigger_tau_over_tau_k", "ur_fluid_trigger_tau_over_tau_k"}
AmpNames     == {"sigma8", "A_s"}
KNames       == {"k_min", "k_max"}
ContribNames == {"has_density", "has_rsd", "has_lensing", "has_d1", "has_d2",
                 "has_g1", "has_g2", "has_g3", "has_g4", "has_g5"}
FlatNames    == {"has_flatsky_local", "has_flatsky_local_nonlocal", "has_flatsky_nonlocal"}
CovFlagNames == {"covariance_cosmic", "covariance_mixed", "covariance_poisson", "has_binned_covariance"}
CovListNames == {"number_density1", "number_density2", "pixelsize", "fsky"}
CovMethNames == {"covariance_integration_method", "covariance_integration_sampling",
                 "covariance_interpolation_method"}
RedshiftNames== {"z_mean", "deltaz", "z_min", "z_max"}
GalBiases    == {"galaxy_bias1", "galaxy_bias2", "galaxy_bias3", "galaxy_bias4"}
RelBiases    == {"magnification_bias1", "magnification_bias2", "evolution_bias1", "evolution_bias2"}
Biases       == GalBiases \union RelBiases
PrecNames    == {"integration_1d_type", "integration_1d_prec", "background_sampling",
                 "integrals_fftlog_sampling"}

\* "pk" is the power spectrum the user supplies; value 0 means none (CLASS supplies it).
Settings == CosmoNames \union ClassNames \union AmpNames \union KNames \union ContribNames
            \union FlatNames \union CovFlagNames \union CovListNames \union CovMethNames
            \union RedshiftNames \union Biases \union PrecNames
            \union {"sep", "mu", "l", "pk_type", "has_only_cross_correlations",
                    "covariance_populations", "integration_sampling", "verbose", "pk"}

-----------------------------------------------------------------------------
\* The stages whose results the setter discards (as the implementation is built).
Discards(s) ==
    CASE s \in CosmoNames \union ClassNames \union KNames \union {"pk_type"} -> Stages
      [] s \in AmpNames                              -> {"pk", "int"} \union Results
      [] s = "pk"                                    -> {"pk", "int"} \union Results
      [] s = "sep"                                   -> Results
      [] s = "mu"                                    -> {"cf"}
      [] s = "l"                                     -> {"int", "mp", "amp", "cov", "acov"}
      [] s \in RedshiftNames                         -> {"int"} \union Results
      [] s \in {"has_density", "has_rsd"}            -> Results
      [] s = "has_lensing"                           -> Signal
      [] s \in ContribNames \ {"has_density", "has_rsd", "has_lensing"} -> {"int"} \union Results
      [] s \in FlatNames                             -> {"int"} \union Signal
      [] s = "has_only_cross_correlations"           -> Signal
      [] s \in CovFlagNames \union CovListNames \union CovMethNames \union {"covariance_populations"} -> Covs
      [] s \in GalBiases                             -> Results
      [] s \in RelBiases                             -> {"bg"} \union Results
      [] s \in PrecNames                             -> {"bg", "int"} \union Results
      [] s = "integration_sampling"                  -> Signal
      [] s = "verbose"                               -> {}

\* The stages that read the setting themselves (not through a stage they are built from).
ReadBy(s) ==
    CASE s \in {"omega_m", "omega_gamma", "w0", "wa"}  -> {"bg", "pk"} \union Signal \union Covs
      [] s = "omega_baryon"                            -> {"pk"} \union Signal
      [] s \in {"h", "m_ncdm"}                         -> {"bg", "pk"} \union Signal \union Covs
      [] s \in (CosmoNames \ (OmegaNames \union {"h", "m_ncdm", "w0", "wa"})) \union ClassNames
               \union AmpNames \union {"pk_type", "pk"} -> {"pk"}
      [] s \in KNames                                  -> {"pk", "int"} \union Covs
      [] s = "sep"                                     -> Results
      [] s = "mu"                                      -> {"cf"}
      [] s = "l"                                       -> {"int", "mp", "amp", "cov", "acov"}
      [] s \in {"z_mean", "deltaz"}                    -> {"int", "cf", "mp", "cov"}
      [] s \in {"z_min", "z_max"}                      -> {"int", "amp", "acov"}
      [] s \in {"has_density", "has_rsd"}              -> Results
      [] s = "has_lensing"                             -> Signal
      [] s \in ContribNames \ {"has_density", "has_rsd", "has_lensing"} -> {"int"} \union Signal
      [] s \in FlatNames                               -> {"int"} \union Signal
      [] s = "has_only_cross_correlations"             -> Signal
      [] s \in CovFlagNames \union CovListNames \union CovMethNames \union {"covariance_populations"} -> Covs
      [] s \in GalBiases                               -> Results
      [] s \in RelBiases                               -> {"bg"} \union Signal
      [] s \in {"integration_1d_type", "integration_1d_prec"} -> {"bg"} \union Signal \union Covs
      [] s = "background_sampling"                     -> {"bg"}
      [] s = "integrals_fftlog_sampling"               -> {"int"}
      [] s = "integration_sampling"                    -> Signal
      [] s = "verbose"                                 -> {}

\* Setters after which a power spectrum supplied by the user no longer applies:
\* when the value changes, or whenever they are called.
DropsPkOnChange == CosmoNames \union {"sigma8"}
DropsPkAlways   == ClassNames \union KNames \union {"pk_type", "A_s"}

-----------------------------------------------------------------------------
\* Domains.  Bounds are decimal numbers written as strings; "open" bounds are excluded.
Dom(ty, lo, loK, hi, hiK) == [type |-> ty, lo |-> lo, loK |-> loK, hi |-> hi, hiK |-> hiK, len |-> 0]

Domain(s) ==
    CASE s \in (CosmoNames \ {"h", "N_ncdm"}) \union AmpNames -> Dom("num", "-100", "closed", "100", "closed")
      [] s = "N_ncdm" -> Dom("int", "-100", "closed", "100", "closed")
      [] s = "h"      -> Dom("num", "0", "open", "100", "closed")
      [] s = "k_min"  -> Dom("num", "0", "open", "0.001", "closed")
      [] s = "k_max"  -> Dom("num", "0.1", "closed", "1000", "closed")
      [] s \in ClassNames -> Dom("any", "", "", "", "")
      [] s = "sep"    -> Dom("numlist", "0", "open", "10000", "open")
      [] s = "mu"     -> Dom("numlist", "-1", "open", "1", "open")
      [] s = "l"      -> Dom("intlist", "0", "closed", "9", "closed")
      [] s \in RedshiftNames \union {"number_density1", "number_density2"} -> Dom("numlist", "0", "closed", "10", "open")
      [] s = "pixelsize" -> Dom("numlist", "0", "open", "1000", "open")
      [] s = "fsky"   -> Dom("numlist", "0", "open", "1", "closed")
      [] s = "covariance_populations" -> Dom("pops", "1", "closed", "4", "closed")
      [] s = "integration_1d_prec" -> Dom("float", "0", "open", "1", "closed")
      [] s = "background_sampling" -> Dom("int", "5", "closed", "2147483647", "closed")
      [] s = "integration_sampling" -> Dom("int", "2", "closed", "2147483647", "closed")
      [] s = "integrals_fftlog_sampling" -> Dom("int", "2", "closed", "1000000", "closed")
      [] s = "covariance_integration_sampling" -> Dom("even", "8", "closed", "1000000", "closed")
      [] s = "covariance_integration_method" -> Dom("enum", "standard", "1", "fftlog", "2")
      [] s = "covariance_interpolation_method" -> Dom("enum", "bilinear", "1", "bicubic", "2")
      [] s = "integration_1d_type" -> Dom("enum", "gsl", "0", "exponential", "1")
      [] s = "pk_type" -> Dom("enum4", "linear", "0", "hmcode", "3")
      [] s \in Biases -> Dom("table", "0", "closed", "15", "closed")
      [] s = "pk"     -> Dom("table", "", "", "", "")
      [] OTHER        -> Dom("bool", "", "", "", "")

\* What can be evaluated, and the domain of each argument (the others being ordinary).
\* Biases are known at their nodes' range (here 0..7), the spectrum in the range of wavenumbers.
ZDom    == Dom("num", "0", "closed", "15", "closed")
BiasDom == Dom("num", "0", "closed", "7", "closed")
KDom    == Dom("num", "1e-5", "closed", "50", "closed")
OpenZ   == Dom("num", "0", "open", "7", "open")      \* both points inside: before the observer, within the biases
EvalArgs ==
    [ comoving_distance |-> [z |-> ZDom], hubble_rate |-> [z |-> ZDom], hubble_rate_conformal |-> [z |-> ZDom],
      hubble_rate_conformal_derivative |-> [z |-> ZDom], growth_factor |-> [z |-> ZDom], growth_rate |-> [z |-> ZDom],
      scale_factor |-> [z |-> ZDom],
      galaxy_bias1 |-> [z |-> BiasDom], galaxy_bias2 |-> [z |-> BiasDom], galaxy_bias3 |-> [z |-> BiasDom],
      galaxy_bias4 |-> [z |-> BiasDom], magnification_bias1 |-> [z |-> BiasDom], magnification_bias2 |-> [z |-> BiasDom],
      evolution_bias1 |-> [z |-> BiasDom], evolution_bias2 |-> [z |-> BiasDom],
      power_spectrum |-> [k |-> KDom, z |-> ZDom],
      cross_spectrum |-> [k |-> KDom, z1 |-> ZDom, z2 |-> ZDom],
      integral |-> [r |-> Dom("num", "0", "closed", "25000", "closed"),
                    n |-> Dom("int", "0", "closed", "3", "closed"),
                    l |-> Dom("int", "0", "closed", "4", "closed")],
      maximum_separation |-> [z_mean |-> Dom("num", "0.1", "closed", "14.9", "closed"), deltaz |-> Dom("num", "0", "closed", "1", "closed")],
      compute_corrfunc |-> [z |-> OpenZ, r |-> Dom("num", "0", "open", "1500", "closed"), mu |-> Dom("num", "-1", "closed", "1", "closed")],
      compute_multipole |-> [z |-> OpenZ, r |-> Dom("num", "0", "open", "1500", "closed"), l |-> Dom("int", "0", "closed", "10", "closed")] ]

\* Classes of a value relative to a domain, and whether a value of the class is accepted.
Classes(ty) ==
    CASE ty \in {"num", "float", "int", "even"} -> {"below", "lo", "inside", "inside2", "hi", "above", "nan", "inf", "-inf", "string", "none", "list"}
                                      \union (IF ty \in {"int", "even"} THEN {"fractional"} ELSE {})
                                      \union (IF ty = "even" THEN {"odd"} ELSE {})
      [] ty \in {"numlist", "intlist"} -> {"below", "lo", "inside", "inside2", "hi", "above", "nan", "inf", "-inf", "scalar", "none", "lastbad", "stringlist"}
                                      \union (IF ty = "intlist" THEN {"fractional"} ELSE {})
      [] ty = "pops" -> {"below", "lo", "inside", "inside2", "hi", "above", "nan", "fractional", "scalar", "none", "lastbad", "wronglen", "stringlist"}
      [] ty \in {"enum", "enum4"}      -> {"name", "name2", "number", "badname", "badnumber", "negative", "none", "list"}
      [] ty = "table"                  -> {"inside", "inside2", "short", "unsorted", "repeated", "nanx", "nany", "infy", "mismatched", "scalar", "belowx", "abovex"}
      [] ty = "bool"                   -> {"true", "false"}
      [] ty = "any"                    -> {"inside", "inside2", "string", "none", "list"}

Accepted(s, c) ==
    LET d == Domain(s) IN
    CASE d.type = "bool" -> TRUE
      [] s \in OmegaNames /\ c = "hi" -> FALSE          \* more than everything there is
      [] c \in {"inside", "inside2", "name", "name2", "number"} -> TRUE
      [] c = "lo" -> d.loK = "closed"
      [] c = "hi" -> d.hiK = "closed"
      [] c \in {"belowx", "abovex"} -> s = "pk"      \* the spectrum's wavenumbers are not bounded here
      [] OTHER -> FALSE


EvalAccepted(m, a, c) ==
    LET d == EvalArgs[m][a] IN
    CASE c \in {"inside", "inside2"} -> TRUE
      [] c = "lo" -> d.loK = "closed"
      [] c = "hi" -> d.hiK = "closed"
      [] OTHER -> FALSE
=============================================================================
