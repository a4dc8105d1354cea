"""Writes properties.jsonl (kept as a script so that the text has one source)"""
import json
U, S, E, P, N, O, V, L = ("src/legwork/" + x for x in (
    "utils.py", "strain.py", "evol.py", "psd.py", "snr.py", "source.py", "visualisation.py", "_logging.py"))
rows = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    rows.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Orbital conversions follow Kepler/Peters and are mutually inverse",
  "For all masses, frequencies, separations and eccentricities, in any equivalent units and for scalars and arrays alike, the chirp mass, the separation<->orbital-frequency conversions, the Peters beta constant and the separation<->eccentricity (c_0) relation equal their closed-form definitions. Converting a frequency to a separation and back, or an (a, e) pair to c_0 and back, returns the starting value; chirp mass is symmetric in the two masses.",
  ["inputs"], "all masses, frequencies, separations, eccentricities in [0,1), unit choices and array shapes",
  "test_utils checks one round trip on one random draw in one unit system; no test compares against an independent formula or mixes units, scalars and shapes.",
  [U], [("chirp_mass, get_a_from_f_orb, get_f_orb_from_a, beta, c_0, get_a_from_ecc", U)])
p("C02", "Harmonic power spectrum g(n,e), enhancement F(e) and chirp rate are right",
  "The relative power g(n,e) equals the Fourier power spectrum of a Kepler orbit's quadrupole, is non-negative, is 1 for n=2 and 0 otherwise when e=0, and sums over n to the enhancement factor F(e). The frequency derivative of the n-th harmonic is n times that of the first and equals the Peters chirp rate; harmonics below 1 are rejected.",
  ["inputs"], "all harmonics n>=1 and eccentricities in [0,1), scalar or broadcast arrays",
  "No stable test compares g(n,e) or F(e) to anything independent; only a bad-harmonic rejection is tested.",
  [U], [("peters_g, peters_f, fn_dot", U)])
p("C03", "Detector response and amplitude modulation match the LISA geometry",
  "The orbit-averaged responses to the plus and cross polarisations equal the average over one LISA orbit of the geometrical response for every sky position and polarisation, are non-negative, and swap when the polarisation rotates by 45 degrees. Each response averages to 3/20 over sky and polarisation, and the amplitude modulation is 5/4 of their combination with the squared inclination factors (1+cos^2 i)/2 and cos i, whatever angle units are used.",
  ["inputs"], "all sky positions, polarisations, inclinations, angle units and sky frames",
  "test_average_response only checks the sky average of the response by Monte Carlo, which is blind to errors that average out.",
  [U, S], [("D_plus_squared, D_cross_squared, D_plus_D_cross, F_plus_squared, F_cross_squared", U), ("amplitude_modulation", S)])
p("C04", "Strain amplitudes are right for every source, timestep and harmonic",
  "The strain and characteristic strain of every (source, timestep, harmonic) entry equal the quadrupole formula for exactly that source, timestep and harmonic, the result having shape (sources, timesteps, harmonics). They obey h_c^2 = f_n^2/fdot_n * h_0^2, scale as 1/distance, are multiplied by the square root of the amplitude modulation when a sky position, polarisation and inclination are given, and harmonics below 1 are rejected.",
  ["inputs"], "all source parameters, 1D or 2D frequency/eccentricity input, any list of harmonics in any order, any units",
  "test_strains checks the h_0/h_c ratio for one configuration and one rejection; absolute values, axes alignment, units and modulation are not settled.",
  [S], [("h_0_n, h_c_n", S)])
p("C05", "Merger times follow Peters (1964) on every documented branch",
  "The inspiral time equals a^4/(4 beta) for circular binaries, the exact Peters integral between the small- and large-eccentricity tolerances and the documented approximations outside them, with the fit option agreeing with the exact integral to within the few-percent accuracy of the published fit. It does not depend on whether a source is given alone or in an array of mixed eccentricities, on the units, or on whether masses+frequency or beta+separation are supplied, and it decreases with eccentricity at fixed separation.",
  ["inputs"], "all masses, separations or frequencies, eccentricities in [0,1) on both sides of the tolerances, tolerance settings, scalar or array",
  "Tests check a few special cases (e=0, tolerances) at sample values and the fit on one grid; mixed arrays and branch alignment are sampled once.",
  [E], [("get_t_merge_circ, get_t_merge_ecc, t_merge_mandel_fit", E)])
p("C06", "Circular evolution follows the exact inspiral law",
  "Evolving a circular binary for any time gives a(t)^4 = a_0^4 - 4 beta t and the matching orbital and gravitational-wave frequencies until merger, and the documented merged values (separation 0, frequency 100 Hz) from merger on. Evolving in two legs equals evolving once, the separation never increases and each source evolves independently of the others in the call.",
  ["inputs", "histories"], "all masses, initial separations/frequencies, evolution times before, at and past merger, step counts, and splits of the interval",
  "test_circular_case compares circular and eccentric functions at sample values; past-merger, mixed batches and composition are not settled.",
  [E], [("evol_circ", E)])
p("C07", "Eccentric evolution solves the Peters equations",
  "Evolving an eccentric binary gives, at every requested time not within the avoidance window of its merger, the eccentricity that solves Peters' equation (to integrator accuracy), with separation and frequency on the same c_0 orbit. Eccentricity and separation never increase along an evolution, timesteps inside the avoidance window repeat the last valid state, and each source is evolved independently of its neighbours.",
  ["inputs", "histories"], "all masses, eccentricities in (0,1), separations or frequencies, evolution times, avoidance windows and batches",
  "test_evol compares two code paths at sample values; nothing compares to an independent solution of the equations.",
  [E], [("evol_ecc, de_dt, integrate_de_dt", E)])
p("C08", "Evolution outputs obey the timestep and output-variable contract",
  "The evolution functions return exactly the requested variables in the requested order and documented units, at exactly the requested times: n_step evenly spaced times from 0 to t_evol (the merger time if omitted), or the 1D or 2D times the user supplied. Single sources give 1D outputs and arrays give one row per source, f_GW is twice f_orb, and missing masses, separations or frequencies are rejected.",
  ["inputs", "configurations"], "all orderings/subsets of output variables, scalar or per-source times, 1D/2D timestep arrays in any time unit, step counts, scalar or array sources",
  "Tests try a handful of output lists and timestep shapes with fixed values.",
  [E], [("create_timesteps_array, check_mass_freq_input, evol_circ, evol_ecc", E)])
p("C09", "Stationarity is decided by the frequency change over the observation",
  "A binary is stationary over a time span exactly when the fractional growth of its orbital frequency at fixed eccentricity over that span is at most the tolerance, merged binaries counting as evolving. The evolved frequency follows the exact chirp law with the eccentricity enhancement, takes the given merged value after coalescence, and the decision is monotone in time span, tolerance, chirp mass and frequency.",
  ["inputs"], "all frequencies, chirp masses or component masses, eccentricities, time spans and tolerances, in any units",
  "No stable test exercises this function directly.",
  [E], [("evolve_f_orb_circ, determine_stationarity", E)])
p("C10", "Instrument noise curves equal their published models",
  "For every frequency, arm length, mission length, response option and confusion model, the LISA, TianQin and DECIGO noise spectral densities equal the published instrument noise divided by the response plus the chosen confusion noise, are positive everywhere, and are infinite outside the LISA and DECIGO bands. 'auto' settings resolve to each instrument's defaults, custom functions are called with the user's arguments and returned unchanged, unknown instruments are rejected, and a missing response-table file falls back to the analytic response.",
  ["inputs", "configurations", "fault_sequences"], "all frequencies (inside, outside and at band edges), arm lengths, mission lengths, confusion models, response options, instruments, and a missing data file",
  "test_psd checks inequalities and a few equalities between configurations on one grid; no absolute values, no band edges, no missing file.",
  [P], [("lisa_psd, tianqin_psd, decigo_psd, power_spectral_density, load_response_function, approximate_response_function", P)])
p("C11", "Galactic confusion models equal their published fits",
  "Each named confusion-noise model equals its published fit for the tabulated mission length closest to the requested one (or the fitted dependence on mission length), is never negative, and is zero for 'no confusion' and for the TianQin fit outside 1e-4 to 1 Hz. The 4-year-only model is rejected for any other mission length, unknown models are rejected, and 'auto' mission length means each model's documented default.",
  ["inputs", "configurations"], "all frequencies and frequency units, mission lengths and time units, models, scalar and array",
  "test_psd checks an ordering between mission lengths on one grid and two rejections; values and nearest-length selection are not checked.",
  [P], [("get_confusion_noise and get_confusion_noise_*", P)])
p("C12", "Stationary signal-to-noise ratios are right",
  "For stationary sources the signal-to-noise ratio equals sqrt(sum_n h_n^2 T / S(f_n)) over the requested harmonics for each source, with the sky modulation applied when given; per-harmonic output sums to the squared total and the reported loudest harmonic is the one with the largest contribution. It scales as 1/distance, as sqrt(T) at fixed noise, and a circular source gives the same answer through the circular and eccentric functions.",
  ["inputs", "configurations"], "all source parameters, observation times, instruments, noise options and harmonic counts",
  "test_snrs compares two code paths to each other on one random draw with loose tolerance; a shared error would pass.",
  [N], [("snr_circ_stationary, snr_ecc_stationary", N)])
p("C13", "Evolving signal-to-noise ratios are right",
  "For evolving sources the squared signal-to-noise ratio equals the sum over harmonics of the trapezoidal integral, over the source's own frequency track during the observation (cut short at its merger), of h_c^2/(f_n^2 S(f_n)). Per-harmonic output sums to the squared total, the reported loudest harmonic has the largest contribution, signal scales as 1/distance, and for slowly changing sources the answer approaches the stationary one.",
  ["inputs", "configurations"], "all source parameters including those that merge during the observation, observation times, step counts, instruments and noise options",
  "test_snrs compares evolving to stationary on one draw with loose tolerance; merging sources and absolute values are not settled.",
  [N, E, S], [("snr_circ_evolving, snr_ecc_evolving", N)])
p("C14", "A source collection scores each member with the right SNR case",
  "For any mix of circular, eccentric, stationary, evolving and merged binaries, the SNR of each member equals that of the case it belongs to (circular/eccentric by eccentricity threshold, stationary/evolving by frequency change over the observation), in the order given, and merged members score 0. The circular/eccentric and stationary/evolving masks partition the collection, requested subsets return exactly the entries of that subset, results do not depend on the rest of the collection, and snr / loudest-harmonic attributes match what was returned.",
  ["inputs", "configurations"], "all mixed collections, subsets, instruments, observation times, noise options, interpolated or direct noise curve, and the Stationary/Evolving subclasses",
  "The Source tests cannot even run here (data files absent), and upstream they compare one random population with the underlying functions for one configuration.",
  [O, N], [("Source.get_snr, get_snr_stationary, get_snr_evolving, get_source_mask; Stationary.get_snr; Evolving.get_snr", O)])
p("C15", "The luminosity tolerance controls harmonics and the eccentric threshold",
  "For any GW luminosity tolerance and eccentricity, the number of harmonics used captures at least (1 - tolerance) of the luminosity without exceeding what is needed by more than the table's resolution, grows with eccentricity and shrinks with tolerance, and the eccentric threshold is where the n=2 harmonic alone stops being sufficient. Changing the tolerance at any time leaves the collection identical to one built with that tolerance, the threshold cannot be set directly, and the strongest harmonic is the one that maximises g(n,e).",
  ["inputs", "histories"], "all tolerances, eccentricities, and sequences of tolerance changes",
  "Source tests do not run here; upstream checks two tolerance values at one eccentricity.",
  [O, U], [("Source.gw_lum_tol setter, create_harmonics_functions, find_eccentric_transition, ecc_tol", O)])
p("C16", "The noise curve in use always matches the stated parameters",
  "After any sequence of changes to a collection's sensitivity parameters (item assignment, update, in-place merge, replacement, passing arguments to an SNR call, or a rejected change) the interpolated noise curve equals the power spectral density of the parameters currently reported, as a fresh collection would have. Only sensitivity parameters can be stored, none can be removed, omitted ones take their defaults, and one collection's changes never affect another's.",
  ["histories"], "all sequences of parameter changes, valid and rejected, on a collection and its copies",
  "Source tests do not run here; upstream tests exercise single changes only.",
  [O], [("SensitivityCurveParams; Source.sc_params setter; Source.set_sc", O)],
  state=[("sc_params", "the parameters reported to the user"), ("sc", "the interpolated noise curve used for SNRs")])
p("C17", "Indexing and copying give consistent, independent collections",
  "Indexing a collection with an integer, slice, integer list or boolean mask (and copying it, repeatedly and in any combination with other operations) selects exactly the rows numpy would for every per-source quantity, keeps type and settings, and preserves derived quantities. Subsequent changes to either object never affect the other, and indices of the wrong length, type or range are rejected.",
  ["inputs", "histories"], "all collections, index expressions, and sequences of index/copy/evolve/score operations",
  "Source tests do not run here; upstream tests a few index expressions on one collection.",
  [O], [("Source.__getitem__, Source.copy, SensitivityCurveParams.__copy__", O)])
p("C18", "Saving and loading reproduces the collection",
  "Loading a saved collection gives the same members, units, sky positions, weights, settings, noise parameters, class and already computed results (SNR, merger times, merged flags), so that anything computed from it equals what the original gives. Existing files are replaced only when asked, a missing file is reported, the extension is added when absent, and custom functions are replaced by defaults as documented.",
  ["inputs", "histories", "fault_sequences"], "all collections in any state (fresh, scored, evolved, masked), noise settings, file names and load options",
  "Source tests do not run here; upstream saves a few fixed collections.",
  [O], [("Source.save, Source.from_file, _write_dataset, _read_dataset", O)])
p("C19", "Evolving a collection forward in time is exact, composable and keeps books",
  "Evolving a collection moves each binary along its own Peters trajectory, marks as merged exactly those whose merger time has been reached (which stay merged and contribute zero strain and SNR), and reduces remaining merger times by the elapsed time but never below zero. Evolving in several legs equals evolving once, and evolving into a new collection gives the same members, weights and settings as evolving in place while leaving the original untouched.",
  ["histories", "inputs"], "all collections of circular/eccentric binaries, sequences of scalar or per-source evolution times before and past merger, in place or into a new collection",
  "Source tests do not run here; upstream evolves one collection once.",
  [O, E], [("Source.evolve_sources, Source.get_merger_time", O)],
  state=[("merged", "which members have merged"), ("t_merge", "remaining time to merger")])
p("C20", "Computations are pure: no hidden state, mutation or neighbour effects",
  "Every public computation leaves the caller's inputs unchanged, gives bit-identical results when repeated, and does not depend on earlier calls. Expressing the same inputs in other compatible units, permuting the sources, or computing a source alone rather than in a batch changes nothing but rounding.",
  ["inputs", "histories", "programs"], "all public functions of the package, inputs, unit choices, permutations, batch splits and interleavings of calls",
  "Tests call each function once with one unit system and never look at the inputs afterwards.",
  [U, S, E, P, N, O], [("all public functions", "src/legwork")])
p("C21", "Invalid input is rejected with the documented error",
  "Missing frequency and separation, quantities without units, arrays of unequal length, inclination or polarisation without a sky position, sky positions for eccentric sources, unknown instruments, models, parameters and mask values, and non-positive harmonics are always rejected with the documented exception type, wherever in the input the defect is. Valid input, including scalars, single-element arrays and lists, is accepted.",
  ["inputs"], "all valid inputs and all single-defect corruptions of them",
  "Tests try one invalid value per rule; most of them are in Source tests that do not run here.",
  [O, E, P, U, S, V], [("Source.__init__ and argument checks in each module", O)])
p("C22", "Interpolated shortcuts agree with the direct computation",
  "Using the interpolated harmonic power function or the interpolated noise curve gives the same strains and signal-to-noise ratios as computing directly, to interpolation accuracy, for every source in the tabulated range, and never a negative or non-finite value. Switching interpolation on or off changes speed only, and frequencies outside the noise table contribute nothing.",
  ["inputs", "configurations"], "all sources with harmonics and eccentricities in the tabulated range, all noise settings and frequencies",
  "Source tests do not run here; the tables are absent from the repository.",
  [O, S, N], [("Source.set_g, Source.set_sc, interpolated_g / interpolated_sc branches", O)])
p("C23", "Plots show the right data and nothing else",
  "Sensitivity-curve plots draw the amplitude spectral density (or characteristic strain) of the requested instrument settings at the requested frequencies; overlaid sources appear at their dominant frequency with height above the curve equal to their SNR, only if stationary, inspiralling and above the cut-off, with their own weights, the rest being announced with correct counts. Distribution plots show exactly the selected, unmerged members, and plotting never changes global style settings or the data.",
  ["inputs", "configurations"], "all collections, variables, cut-offs, masks, weights, scales and noise settings",
  "Plot tests only check that figures are produced; the drawn data is never inspected, and the Source ones do not run here.",
  [V, O], [("plot_1D_dist, plot_2D_dist, plot_sensitivity_curve, plot_sources_on_sc", V), ("Source.plot_source_variables, Source.plot_sources_on_sc", O)])
p("C24", "Log messages are complete, correctly prefixed and shown once",
  "Every message sent through the package logger at or above its level appears exactly once, as 'LEGWORK <level>: <message>' with arguments formatted, coloured by severity only when writing to a terminal, and messages below the level do not appear. Operations of the package announce what they decide for the user (ignored sky position, discarded sources, unreachable merger, unreproducible files) once and with correct severity and counts; a calculation of signal-to-noise ratios is silent unless asked to be verbose, and then reports the right numbers of sources of each kind without changing any result. Importing the package leaves other loggers and their handlers alone and does not add a second handler.",
  ["inputs", "configurations", "histories"], "all messages, levels, logger levels, terminal and non-terminal streams, and repeated imports",
  "test_logging checks one message format and the presence of a handler.",
  [L], [("LegworkFormatter, logger", L)])
p("C25", "Parallel evolution gives the serial result",
  "Evolving or scoring eccentric sources over any number of processes gives the same values in the same order as a single process.",
  ["schedules", "configurations"], "all batches (including fewer sources than processes) and process counts",
  "test_snrs/test_sources use one process count on one population.",
  [E, N, O], [("evol_ecc n_proc branch, integrate_de_dt; snr_ecc_evolving n_proc", E)])
p("C26", "Per-collection strain, merger time and built-in binaries are right",
  "The strain, characteristic strain, chirp mass, separation and merger time reported by a collection equal the underlying formulas for the current properties of each member (also after they were edited), with merged members giving zero strain and zero remaining time, and requested subsets return exactly those rows. Setting a separation updates the frequency consistently, randomly drawn inclinations and polarisations stay in their documented ranges, and the built-in verification binaries behave as an ordinary collection of their tabulated systems.",
  ["inputs", "configurations"], "all collections, harmonic lists, subset masks, sky positions and merged states",
  "Source tests do not run here; upstream compares one population against the same functions.",
  [O, S], [("Source.get_h_0_n, get_h_c_n, get_merger_time, m_c, a; VerificationBinaries", O)])
p("C27", "Arguments left out mean their documented defaults, by position or by name",
  "For every public function, constructor, collection method and plot, leaving optional arguments out gives exactly the result of spelling out their documented defaults, passing arguments by position in the documented order gives exactly the result of passing them by name, and earlier calls don't change what later calls get by default. For a collection the defaults are its own current noise parameters, and plots are shown unless told otherwise.",
  ["inputs", "configurations", "histories"], "all subsets of optional arguments, positional or named, of all public functions, for all valid values of the others",
  "Tests call each function in one or two fixed ways, and never compare an omitted argument with its documented default.",
  [U, S, E, P, N, O, V], [("every public signature", O), ("plot functions", V), ("noise curve functions", P)])

with open("properties.jsonl", "w") as fh:
    for r in rows:
        fh.write(json.dumps(r) + "\n")
print(len(rows), max(len(r["title"]) for r in rows))
