"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
PYX="python/coffe/coffe.pyx"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Results never go stale",
"After any sequence of parameter changes and computations on a Coffe object, every quantity it returns (background functions, power spectrum, Fourier-Bessel integrals, correlation function, multipoles, redshift-averaged multipoles and the covariances of both) equals what a freshly created object with the same final parameters, biases and power spectrum returns. Asking for the same quantity again without a change in between, or with recomputation forced where the parameters alone determine the result, gives the same values.",
["histories"],"All interleavings of setters (cosmology, survey, grids, biases, contribution and flat-sky switches, precision), of set_power_spectrum_linear and of computations.",
"The tests configure an object once and compute each result once; no test changes a parameter after a result was computed, so none of the lazily kept intermediate results is ever exercised for staleness.",
[PYX],[("lazy result stores and the setters that clear them",PYX+" _free_* and every property setter"),("on-demand initialisation",PYX+" _background_init.._covariance_init")],
["return values of the public methods of Coffe"],state=[("cached stages","background, power spectrum, integrals, corrfunc, multipoles, averages, covariances, each kept until cleared",PYX)])

p("P02","Reading never changes anything",
"Reading a parameter, the parameter dictionary, a bias, or any function of the background or of the power spectrum, computing a result, or writing the settings file leaves every parameter, the supplied power spectrum and all later results as they were. The order in which results are asked for does not affect their values.",
["histories"],"All sequences of read-only and compute operations inserted between any two operations of a session.",
"Tests read attributes once on a fresh object; none checks that a later result is unaffected.",
[PYX],[("getters, parameters, to_file, reset of flags during covariance computations",PYX)],["return values before and after the read"])

p("P03","Invalid input is refused and leaves no trace",
"Each parameter, bias table, grid, contribution switch and evaluation point has a documented domain: a value of the wrong type, outside its range, or not finite is refused with a Python exception, and a value inside is accepted. After a refusal every parameter reads as before and every later result is as if the call had not been made.",
["inputs","histories"],"All setters and evaluation methods, with values inside, on the edge of, and outside the domain, wrong types, NaN and infinities, at any point of a session.",
"The tests contain a handful of assertRaises on single values and never look at the object afterwards.",
[PYX],[("_check_parameter, _check_parameter_discrete and the checks inside setters",PYX)],["exception raised", "attributes and results afterwards"])

p("P04","A parameter reads back as it was set",
"After a parameter is set to an accepted value, reading it returns that value (arrays element by element, in order, at full precision, however small the change), and no parameter that is not documented to depend on it changes. Setting several parameters one by one, through the constructor, or through set_parameters has the same effect.",
["inputs","histories"],"All settable attributes, all accepted values including ones very close to the current value, in any order.",
"The tests check a few attributes with one value each.",
[PYX],[("property getters and setters, set_parameters, __cinit__",PYX)],["attributes of Coffe"])

p("P05","The cosmological budget is consistent",
"Whatever the order in which the density parameters, h and the neutrino mass are set, the physical and fractional densities agree with one another and with h: matter is the sum of cold dark matter, baryons and massive neutrinos, matter plus radiation plus dark energy is one, neutrinos contribute m_ncdm/(93.14 h^2), and dark energy fills the remainder. Setting one component changes only that component and those defined by the sum rules: matter stays when baryons change (cold dark matter gives way) and follows cold dark matter when that is set. Matter, baryons, radiation, h and the neutrino mass may be set in any order that is accepted, with the same outcome.",
["inputs","histories"],"All orders of the setters of omega_m, omega_cdm, omega_baryon, omega_gamma, h, m_ncdm and N_ncdm with in-range values.",
"Tests set one component at a time on a default object.",
[PYX],[("omega_* properties, h and m_ncdm setters",PYX)],["omega_* attributes, comoving_distance, hubble_rate"])

p("P06","A settings file restores the session",
"Writing a configured object to a settings file and reading it back yields an object whose parameters, contribution switches and biases equal the original's and whose results equal the original's computed from the same power spectrum, whatever the configuration and whatever the process's hash seed. Reading a file and writing it again gives an equivalent file.",
["configurations"],"All configurations expressible through the setters.",
"test_to_from_file covers a default object and one sample file.",
[PYX,"DEFAULT_SETTINGS.cfg","settings.cfg"],[("to_file / from_file",PYX)],["attributes and results of the object read back"])

p("P07","Objects do not share state",
"Operations on one Coffe object never change the parameters or results of another, however the operations on several objects are interleaved and in whatever order the objects are created and destroyed.",
["histories"],"All interleavings of sessions on two or more live objects, including creation and destruction.",
"Each test uses one object at a time.",
[PYX,"src/common.c","src/background.c","src/integrals.c"],[("per-object C structures and per-object lazily built tables",PYX)],["results and attributes of the other objects"])

p("P08","Bulk results cover exactly the requested grid",
"A bulk computation returns one entry for every combination of the configured redshifts, angles or multipoles, and separations, each exactly once, in the documented order of nested grids, and labelled with its own coordinates. The value of each entry equals the corresponding single-point computation for these coordinates.",
["configurations"],"All grid shapes: different lengths of the separation, angle, multipole and redshift lists, unsorted and non-uniform values, up to the allowed sizes.",
"Tests use one grid whose coordinates are never compared entry by entry, and do not compare with the single-point functions.",
[PYX,"src/corrfunc.c","src/multipoles.c","src/average_multipoles.c","src/covariance.c"],[("nested loops that fill the result arrays",PYX+" and src/*.c")],["lists returned by compute_*_bulk"])

p("P09","Contributions combine as a sum over pairs",
"The correlation function and the multipoles for a set of contributions equal the sum, over unordered pairs of its members, of the pair's own term, independent of the order in which they were switched on; with only cross correlations requested, exactly the terms of a contribution with itself are left out. With no contribution on, a request is refused, and a term does not depend on whether unrelated contributions are present.",
["configurations"],"All 2^10 subsets of the ten contributions, with and without the cross-only switch, full-sky and flat-sky.",
"Tests use three or four subsets.",
["src/functions.c",PYX],[("if-cascade over pairs of contributions","src/functions.c functions_nonintegrated, functions_single_integrated, functions_double_integrated")],["compute_corrfunc, compute_multipole"])

p("P10","Local terms follow linear relativistic theory",
"For density, redshift-space distortions, the two Doppler terms and the three local potential terms, every pair's contribution to the full-sky correlation function equals the linear-theory expression: each contribution is its documented amplitude at its own redshift (with its own population's galaxy, magnification and evolution bias) times radial derivatives of the density field filtered by powers of k, correlated with the given power spectrum at the exact separation, angle and wide-angle geometry. The potentials are sourced by cold dark matter and baryons.",
["inputs","configurations"],"All 28 pairs, all redshifts, separations, angles, bias functions, cosmologies and power spectra in the domain.",
"Benchmarks cover only the seven autocorrelations and one sum dominated by density and RSD, at a single redshift with unit bias and equal populations.",
["src/functions.c","src/background.c","src/integrals.c"],[("functions_nonintegrated","src/functions.c"),("G1, G2","src/background.c")],["compute_corrfunc"])

p("P11","Integrated terms follow linear relativistic theory",
"Every pair that contains lensing, the Shapiro time delay or the integrated Sachs-Wolfe term equals the linear-theory line-of-sight integral with the documented kernel of each contribution, using the source's biases at the source, the growth and expansion along the line of sight, and the exact wide-angle geometry.",
["inputs","configurations"],"All 27 pairs with at least one integrated contribution, all redshifts, separations, angles, biases and power spectra in the domain.",
"Benchmarks cover only the three autocorrelations and one sum dominated by density and RSD, with equal populations.",
["src/functions.c","src/signal.c","src/integrals.c"],[("functions_single_integrated, functions_double_integrated","src/functions.c"),("line-of-sight quadrature","src/signal.c")],["compute_corrfunc"])

p("P12","Multipoles are Legendre projections",
"The multipole of order l at separation r and mean redshift z equals (2l+1)/2 times the integral over mu in [-1, 1] of the correlation function at (z, r, mu) times the Legendre polynomial of order l, for every set of contributions, every l from 0 to 10 (0 to 9 in a grid) and every combination of flat-sky switches, to the accuracy of the integration settings.",
["inputs","configurations"],"All contributions, multipoles l = 0..10, separations, redshifts, populations.",
"Benchmarks cover l = 0, 2, 4 for autocorrelations with equal populations at one redshift; nothing relates multipoles to the correlation function.",
["src/multipoles.c","src/signal.c","src/functions.c"],[("coffe_integrate with MULTIPOLES","src/signal.c")],["compute_multipole, compute_multipoles_bulk, compute_corrfunc"])

p("P13","Averaged multipoles are weighted redshift averages",
"The redshift-averaged multipole over [z_min, z_max] equals the uniform average, over mean redshifts between those at distances chi(z_min) + r/2 and chi(z_max) - r/2, of the multipole times H0/H(z), so that for bins which can hold the separation both points stay inside. A narrow bin tends to the multipole at its centre times H0/H. Bins whose points would lie behind the observer, beyond the background or where a used bias is unknown are refused.",
["inputs","configurations"],"All bins, separations, multipoles, local contributions.",
"One benchmark for one bin with two contributions and equal populations.",
["src/average_multipoles.c","src/signal.c"],[("coffe_integrate with AVERAGE_MULTIPOLES","src/signal.c")],["compute_average_multipoles_bulk"])

p("P14","Exchanging the populations mirrors the line of sight",
"Swapping all bias functions of the two populations and changing the sign of mu leaves the correlation function unchanged, and multiplies multipoles of order l by (-1)^l. For identical populations odd multipoles vanish and the correlation function is even in mu.",
["inputs","configurations"],"All contributions and pairs, all bias functions, separations and redshifts, full-sky and flat-sky.",
"Only one test uses two different populations and checks two numbers.",
["src/functions.c","src/background.c","src/signal.c"],[("symmetrised pair terms","src/functions.c")],["compute_corrfunc, compute_multipole"])

p("P15","The background solves its equations",
"For every accepted cosmology the scale factor is 1/(1+z), the Hubble rate satisfies the Friedmann equation with the configured densities and equation of state w0 + wa(1-a), the comoving distance is the integral of its inverse, the conformal Hubble rate and its conformal-time derivative are a H and its derivative, and the growth factor and growth rate solve the linear growth equation in matter and dark energy (radiation counting as dark energy), begun with D = a at a = 1/20 and normalised to one today. Massive neutrinos are matter in the expansion. Distances grow and growth falls strictly with redshift.",
["inputs","configurations"],"All cosmologies (omegas, h, w0, wa) and redshifts up to 15.",
"One benchmark cosmology with a cosmological constant.",
["src/background.c",PYX],[("coffe_background_init","src/background.c")],["comoving_distance, hubble_rate, hubble_rate_conformal, hubble_rate_conformal_derivative, growth_factor, growth_rate, scale_factor, maximum_separation"])

p("P16","Input spectra and biases are honoured",
"A power spectrum or bias table supplied by the user is reproduced at every supplied node and smoothly between nodes, whatever the number (at least five) and spacing of nodes, tables that are not finite and strictly increasing are refused, and so is evaluation outside the table. A spectrum given at redshift z is rescaled by the squared growth factor to redshift zero. The power spectrum at redshift z is the supplied one times the squared growth factor, the cross spectrum the product of both growth factors, and the correlation function, integrals and multipoles are linear in the spectrum while the cosmic, mixed and Poisson covariances scale as its second, first and zeroth power.",
["inputs"],"All spectra and bias tables accepted by the setters.",
"Tests supply one spectrum and a constant bias.",
[PYX,"src/common.c","src/integrals.c"],[("set_power_spectrum_linear, set_*_bias*, spline helpers",PYX+", src/common.c")],["power_spectrum, cross_spectrum, galaxy_bias1..4, magnification_bias1..2, evolution_bias1..2, compute_*"])

p("P17","Fourier-Bessel integrals are what they claim",
"The integral returned for orders n and l at separation r equals 1/(2 pi^2) times the integral of k^2 P(k) j_l(kr)/(kr)^n over the spectrum's range, (multiplied by r^(n-l) when n is at least l), for every supported (n, l), at small, intermediate and large r and in the limit r = 0, whatever the spectrum's sampling and units (to the accuracy of a discrete transform: at separations within a factor five of the ends of its range, 1 to k_max/k_min, it degrades, most for n >= 2). Separations beyond that range and combinations that are not supported are refused; the integral with n = 4 exists exactly while a contribution that needs it is on.",
["inputs"],"All supported (n, l), all r in the domain, all spectra.",
"The tests compare a few values for one spectrum.",
["src/integrals.c","src/twofast.c",PYX],[("coffe_integrals_init, twofast_1bessel","src/integrals.c, src/twofast.c")],["Coffe.integral"])

p("P18","Flat-sky switches change only their own terms",
"With the local flat-sky switch on, density, RSD and the first Doppler term take their plane-parallel forms with everything evaluated at the mean redshift; the local-nonlocal and nonlocal switches replace the density-lensing (and RSD- and Doppler-lensing) and the lensing-lensing terms by their plane-parallel (Limber) forms, also in multipoles. All other terms are unaffected, and each plane-parallel form (the density-lensing one averaged over both orders of the populations) tends to the full-sky value as the separation becomes small compared to the distance.",
["inputs","configurations"],"All combinations of the three switches with all contributions, redshifts and separations.",
"Two benchmarks of flat-sky multipoles at one redshift.",
["src/functions.c","src/signal.c",PYX],[("flatsky branches","src/functions.c"),("output_type handling",PYX)],["compute_corrfunc, compute_multipole, compute_*_bulk"])

p("P19","The covariance is the Gaussian covariance",
"Each covariance entry of two multipoles in a redshift bin equals the Gaussian flat-sky expression: the sum of the enabled cosmic-variance, mixed and Poisson parts, built from the populations' biases (only if density is on), the growth rate (only if RSD is on), number densities of the tracers in the first two slots, sky fraction, bin volume, pixel size and the double Bessel integrals of the spectrum, with Bessel functions averaged over shells one pixel wide (no wider than twice the separation) if a binned covariance is wanted. Pairings that see a pair from its other end enter with (-1)^l. The matrix is symmetric for autocorrelations, bins in redshift are independent of each other, and each redshift uses its own survey parameters.",
["inputs","configurations"],"All grids, multipoles, population choices, number densities, bin widths, sky fractions, part switches and integration methods.",
"One benchmark per method with a single bin and one population.",
["src/covariance.c","src/twobessel.c",PYX],[("coffe_covariance_init","src/covariance.c")],["compute_covariance_bulk"])

p("P20","The averaged covariance uses the averaged volume",
"The covariance of redshift-averaged multipoles in [z_min, z_max] equals the Gaussian expression evaluated at the bin centre with the effective volume 4 pi f_sky divided by H0^2 times the integral of 1/(H_conf chi^2 (1+z)) over the bin, each bin with its own survey parameters, labelled with its own bin limits.",
["inputs","configurations"],"All bins, grids, population choices, densities, sky fractions and part switches.",
"One benchmark with a single bin.",
["src/covariance.c",PYX],[("coffe_covariance_init","src/covariance.c")],["compute_average_covariance_bulk"])

p("P21","Results do not depend on threads or repetition",
"A computation gives the same numbers for any number of worker threads and any schedule of them, and when repeated in the same or another process; no schedule makes it crash, hang or read data another thread is writing.",
["schedules"],"All thread counts and interleavings of the parallel loops.",
"Tests run once with the default number of threads and a tolerance that hides rare differences.",
["src/corrfunc.c","src/multipoles.c","src/average_multipoles.c","src/covariance.c","src/integrals.c","src/background.c","src/common.c",PYX],[("OpenMP loops over grid points and shared interpolation tables","src/*.c, "+PYX)],["values under different OMP_NUM_THREADS, data races"])

p("P22","The command-line program writes complete, correct files",
"For every valid settings file the coffe-cli program exits with success and writes, under the configured path and prefix, the settings copy, the background table and the result file of the requested kind with one row per grid point and the same values as the Python interface gives for the same settings; running it again replaces the files rather than adding to them. The number of threads does not change the files.",
["configurations"],"All output kinds, grids, contribution lists, biases and path or prefix choices.",
"No test runs the command-line program.",
["src/main.c","src/parser.c","src/output.c"],[("coffe_parse_settings, coffe_output_init","src/parser.c, src/output.c")],["exit status, output files"])

p("P23","The command-line program rejects bad input cleanly",
"With a missing, unreadable or syntactically wrong settings file, a missing required setting, an out-of-range or unknown value, an unreadable bias table or an unwritable output folder, coffe-cli prints a message, exits with a failure status, does not crash and writes no result file; help and version requests and a call without arguments succeed and write nothing.",
["inputs","fault_sequences"],"All single faults in otherwise valid settings files and command lines.",
"No test runs the command-line program.",
["src/main.c","src/parser.c","src/errors.c"],[("print_error, parser checks","src/errors.c, src/parser.c")],["exit status, stderr, files written"])

p("P24","The Python command line writes what the API returns",
"For every settings file and every kind of output, python -m coffe exits with success and writes a table with one row per grid point whose columns are the coordinates and values that the Python interface returns for an object read from the same file, with a header naming the columns in that order.",
["configurations"],"All six kinds of output and all settings files.",
"No test runs the module.",
["python/coffe/__main__.py","python/coffe/representation.py",PYX],[("compute_output","python/coffe/__main__.py")],["exit status, output file"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
