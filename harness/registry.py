"""Property -> module, function, level, technique, note."""
TRACE = "TLA+ specification checked with TLC; histories generated by TLC, replayed on the package, recorded traces judged by TLC"
SESSION = ("The design (which setter discards which kept stage, what each stage is built from) is checked exhaustively in CoffeSession; the "
           "implementation is checked on histories generated from it: ")
SUMS = "TLA+ specification of the terms a request consists of, checked with TLC; its histories of switches replayed on the package, requests compared with the sums the specification states"
DERIVED = "two-point terms derived symbolically by a TLA+ specification (checked with TLC: exchange, homogeneity, plane-parallel limit, Kaiser), evaluated and compared with the package"
COVARIANCE = "TLA+ specification of the Wick pairings behind the covariance, checked with TLC for every population assignment; the terms it arrives at evaluated and compared with the package entry by entry"
CHECKS = {
    "P01": ("sessions", "p01", "model_checking", TRACE,
            SESSION + "every setting and value once around every kind of result, plus seeded random histories; equality up to 1e-7 between results of the same build."),
    "P02": ("sessions", "p02", "model_checking", TRACE,
            SESSION + "each history with and without its reads and requests, all kinds of results in several orders."),
    "P03": ("inputs", "p03", "model_checking", TRACE,
            "Every class of value of every domain in CoffeTables, for every setting and evaluation argument; later results compared with an untouched object's."),
    "P04": ("inputs", "p04", "model_checking", TRACE,
            "Every setting read after every change of any setting, in generated histories with seeded random values, some differing in the last digits; exact equality (bias tables: 1e-12, as they are read through a spline)."),
    "P06": ("files", "p06", "model_checking", "TLA+ specification of writing and reading settings files (order in which settings that depend on one another are read, older names, what a file holds) checked with TLC; its histories of sessions with files replayed on the package, recorded traces judged by TLC",
            "Every setting at seeded random values, written and read, by processes with four hash seeds; random histories with files in between; histories of densities; spectra of any range, lists of any length; files in the style of the samples."),
    "P07": ("sessions", "p07", "model_checking", TRACE,
            SESSION + "interleavings on two objects, each compared with its own part of the history alone, destruction in several orders."),
    "P21": ("sessions", "p21", "model_checking", "TLA+ model of the parallel loops checked with TLC for every schedule; runs with several thread counts validated as traces",
            "The model covers all schedules of a small loop; the implementation runs with 1 to 8 threads, whose schedules are sampled, not enumerated."),
    "P09": ("sums", "p09", "model_checking", SUMS,
            "CoffeSignal is checked exhaustively; every pair of contributions, with and without the contributions' own terms, and random histories over all ten; sums of the package's own isolated terms."),
    "P10": ("terms", "p10", "model_checking", DERIVED,
            "All 28 local pairs at seeded random points of two seeded cosmologies with different biases of both populations; 1e-3."),
    "P11": ("terms", "p11", "model_checking", DERIVED,
            "All 27 pairs with an integrated contribution at seeded random points; 2e-3, double integrals 1e-2 (the package's Monte Carlo)."),
    "P14": ("sums", "p14", "model_checking", SUMS,
            "Every pair with the populations exchanged, identical populations, and histories that exchange them; exact for local terms, Monte Carlo accuracy for integrated ones."),
    "P18": ("sums", "p18", "model_checking", SUMS + "; the plane-parallel forms derived in CoffeTerms and evaluated",
            "All combinations of the three switches on every pair of the contributions they affect and on others; formulas at seeded points to 1e-3."),
    "P08": ("grid", "p08", "model_checking", "TLA+ specification of bulk requests (coordinates by nested loops, entries in any order) checked with TLC; its order compared entry by entry with the package's results",
            "Seeded random grids of every shape with unsorted values; labels exact, values against single-point requests to 1e-6."),
    "P12": ("project", "p12", "model_checking", SUMS + "; multipoles compared with quadratures of the correlation function",
            "Every single term and switch combination, sets of contributions; 1e-5 for local terms, Monte Carlo accuracy for integrated ones."),
    "P13": ("project", "p13", "model_checking", "TLA+ specification of the average (range, weight, pairs that enter) checked with TLC, evaluated on the package's multipoles and compared with its averages",
            "Single terms and switches in thin, deep, near and far bins; 2e-3 for local terms, Monte Carlo accuracy for integrated ones."),
    "P15": ("background", "p15", "model_checking", "TLA+ specification of expansion, distances and growth, its identities checked with TLC, its expressions evaluated and compared with the package",
            "Sixteen kinds of cosmologies with seeded random values, tables of several samplings and integration methods, at and between nodes; Hubble rates 2e-5, distances 2e-5, growth 1e-4; growth also against the closed form."),
    "P05": ("budget", "p05", "model_checking", TRACE,
            "CoffeBudget is checked exhaustively (closure, order, reading back) with small shares; random histories of it, one setting at a time, several, or in the constructor, every density compared after every step (1e-12), and the expansion rate at times."),
    "P19": ("covariance", "p19", "model_checking", COVARIANCE,
            "All 256 population assignments in the specification; seeded random requests (grids, multipoles 0 to 9, bins, parts, contributions, windows, methods); 5e-5, 2D FFTLog at the accuracy of its sampling."),
    "P20": ("covariance", "p20", "model_checking", COVARIANCE,
            "As P19, for bins of random limits, each with its own survey."),
    "P17": ("fourier", "p17", "model_checking", "TLA+ specification of the integrals (series of the Bessel functions as exact fractions, relations between the integrals, which exist when), checked with TLC; evaluated and compared with the package, and its histories of switches and spectra replayed",
            "All nine integrals at seeded separations from 0 to 25000 for five kinds of seeded spectra; 5e-4 of the integrand's size, less near both ends of the transform's range."),
    "P16": ("supply", "p16", "model_checking", "TLA+ specification of supplied spectra and biases (growth kept symbolically, degrees in the spectrum) checked with TLC; its histories replayed on the package, its relations evaluated on the package's results",
            "Seeded random tables of every shape, spacing and number of nodes, at nodes (1e-12), next to and between them; combinations of two spectra for integrals, signals and each part of the covariance (1e-4)."),
    "P22": ("cli", "p22", "model_checking", "TLA+ specification of coffe-cli (settings that requests read, phases of runs, what a folder holds) checked with TLC; its requests and histories of runs carried out with the program, its files compared with the package's results",
            "Requests of every kind and way with seeded random settings, tables, paths, prefixes and threads; histories of five runs with faults at every phase; values 1e-8 (averages 1e-5, parts of spectra 2e-3)."),
    "P23": ("cli", "p23", "model_checking", "TLA+ specification of what coffe-cli refuses (every fault of every setting in every way of asking, command lines, phases at which runs fail) checked with TLC; each enumerated fault and command line carried out with the program",
            "Every enumerated fault for every kind of output; command lines of up to three options; folders and files that cannot be written; histories."),
    "P24": ("module", "p24", "model_checking", "TLA+ specification of python -m coffe (command lines, columns, runs and settings files that change) checked with TLC; its histories and command lines carried out, the files compared with the package's results",
            "All kinds on seeded random settings files; histories of six runs with faults; values 1e-8 (averages 1e-5)."),
}
NOT_APPLICABLE = {}
