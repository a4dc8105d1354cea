"""The hand-written parts of DESIGN.md (make_design.py puts them together with the facets and the planted bugs)"""

HEAD = """# Verification of LEGWORK by property-based testing and fuzzing

`properties.jsonl` lists 27 properties (C01-C27); every one is decided by generated-input search with Hypothesis against an
explicit oracle. This file says how, what was found, and what the machinery is known to detect. It is put together by
`make_design.py` from `design_text.py`, the registered facets and the planted bugs.

## How the machinery works

* `run_check.py CXX --tier quick|thorough` runs one property. `vf/checks/cxx.py` holds its *facets*: a Hypothesis strategy
  that produces a JSON case, and a function that drives the real code with the case and judges the outcome. Facets (and
  shards of big facets) run in parallel worker processes, each seeded from (property, facet, `VERIF_SEED`, shard).
* **Code under test**: `vf/overlay.py` makes a scratch package whose entries are symlinks to `/repo/src/legwork/*`, so what
  runs is the working tree (LEGWORK is pure Python; there is nothing else to rebuild). Two data files that LEGWORK needs
  are not in the repository (`harmonics.npz`, `peters_g.npy`: they are git-lfs/download artefacts); surrogates are
  generated from this framework's own reference g(n,e) with the recipe of `/repo/helpers`, and only where the real file is
  absent. Without them most of the `Source` class could not even be constructed here.
* **Oracles**: `vf/ref.py` is an independent implementation written from the papers (Kepler, Peters & Mathews 1963, Peters
  1964, Cornish & Rubbo 2003, Robson+19, Huang+20, Thiele+21, Karnesis+21, Yagi & Seto 2011), in plain SI numbers, using
  different algorithms than LEGWORK where one exists (FFT of a sampled Kepler orbit for g(n,e), explicit orbit average of
  the detector tensor for the response, adaptive quadrature and inversion of the time-to-merger integral instead of an ODE
  for eccentric evolution). The other oracles are metamorphic (permutation, batch versus alone, units, scaling with
  distance and time, two legs versus one), round trips (save/load, copy, unit), differential (interpolated versus direct,
  n processes versus one, collection versus functions, changed collection versus fresh collection), reference models of
  histories (numpy indexing, dictionary of noise parameters, bookkeeping of merger times) and purity (bit-identity with a
  pristine process).
* **Shrinking and replay**: a violation is shrunk by Hypothesis and then re-run in a fresh process. If it only appears
  after earlier cases (state left behind inside a process) the whole history of cases is kept and minimised with delta
  debugging. The replay file (`replays/CXX_facet_sN.json`) runs without Hypothesis: `run_check.py CXX --replay FILE`.
  A violation that cannot be reproduced in a fresh process is reported as a harness error, never as a violation.
* **Evidence**: `evidence/CXX.json`: number of cases, number of *distinct non-trivial* cases by the stated rule of every
  facet, histogram of labels, samples.
* **No alarm on refactorings**: the oracles look only at public behaviour (values, shapes, units, exceptions, messages,
  files, drawn artists); no check reads source text or private attributes except where a private name is the documented
  observable (for instance `Source._snr`-free: `snr`, `max_snr_harmonic`, `merged`, `t_merge`, `sc_params` are public).
* **Tolerances** are set from the documented accuracy (2 % for the merger-time branches, the odeint tolerances for the
  evolution, table spacing for interpolation) and from measured rounding; every check was run over many seeds on the
  unchanged tree and inputs at a rounding edge of a decision (stationary / evolving, merged or not, at a band edge, at the
  boundary of a named model) are recognised with the oracle and either both outcomes are accepted or the case is not
  decided there.
* Cost: each quick check 5-60 s on 8 cores, all 26 about 9 minutes; thorough tiers multiply the cases by 10-50
  and take minutes to about 15 minutes each.

Why random search can reach what the tests cannot: the 25 stable tests call functions with one draw of a few parameters,
always the same container, unit, instrument and order, and most tests of `Source` cannot run here without the data files.
The properties quantify over mixes (circular/eccentric x stationary/evolving x merged members), over units, over option
combinations, over histories of edits, copies, saves and evolutions, and over sky geometry; these are the dimensions the
generators span.

## The properties, one by one

For each: oracle, bounds, and the facets with the number of quick / thorough cases.
"""

# id: (oracle and method, bounds and limits)
PROP = {
"C01": ("Closed forms in SI; round trips f->a->f and (a,e)->c_0->a; symmetry of the chirp mass; equality over unit choices and scalar/array/broadcast shapes.",
        "1e-3..1e7 Msun, 1e-9..1 Hz, e in [0, 0.9999]; relative 1e-12 to 1e-9."),
"C02": ("FFT power spectrum of the third time derivative of the quadrupole of a sampled Kepler orbit; Bessel-function formula evaluated separately; F(e) closed form and sum over harmonics; Peters' chirp rate.",
        "e up to 0.85 for the FFT, up to 0.95 for the sums; harmonics up to 10^4 in the formula."),
"C03": ("Explicit average of the detector tensor over one LISA orbit, quadrature over the whole sky (exact for these trigonometric polynomials), astropy frame transformations for positions in other frames.",
        "Full sphere incl. poles, any polarisation and inclination, four frames, three angle units."),
"C04": ("Quadrupole formula per (source, timestep, harmonic) entry; h_c^2 = f_n^2/fdot_n h_0^2; scaling; a supplied g(n,e); position through C03's reference.",
        "Arrays of 1-6 sources x 1-5 timesteps x 1-12 harmonics, harmonics up to 200."),
"C05": ("Peters' integral by adaptive quadrature in a substituted variable; documented approximations outside the tolerances; published fit within its measured accuracy (3 %); order, unit, container and branch-mask relations; monotone in e; the compiled integrand separately (numba on).",
        "e in [0, 0.99995], small/large tolerances random (incl. 0 and equal)."),
"C06": ("a^4 = a0^4 - 4 beta t, documented merged values, two legs equal one, alone equals batch, separations never increase.",
        "Times before, at and after merger as fractions of the merger time; 1-D and 2-D timesteps."),
"C07": ("e(t) by inverting the time-to-merger integral (no ODE), a and f from c_0; avoidance window; merged values; two legs; order and neighbours; the merger-time input.",
        "e in [1e-6, 0.99]; tolerances from odeint's, 1e-4..1e-6 away from merger. Known to be loose within 1e-3 of the merger time."),
"C08": ("Reference of the output contract (names, order, units, shapes, timesteps), including rejections.",
        "All subsets/orders of output names, scalar/array, 1-D/2-D/None timesteps, lists."),
"C09": ("Exact chirp law with F(e) at fixed e; decision compared with it away from a 1e-6 rounding edge; monotone in span, tolerance, chirp mass and frequency.",
        "Fractions of the merger time from 1e-6 to 10; tolerance 1e-6..1."),
"C10": ("Published curves in `ref.psd*`; fall-back analytic response checked by *removing* R.npy from the overlay (injected fault); custom functions record their arguments.",
        "1e-9..1e3 Hz, arm 1e7..1e11 m, all models, random units."),
"C11": ("Published fits tabulated in `ref.conf_*`; nearest mission length incl. the switching points; zero/negative/rejections.",
        "0.1..20 yr. The exact tie of two mission lengths is not decided."),
"C12": ("sqrt(sum h_n^2 T/S) with `ref` strains and noise; output modes; scaling; order; circular function against eccentric at e=0; supplied g.",
        "1-300 harmonics, all instruments, with and without sky modulation."),
"C13": ("Trapezoidal integral of h_c^2/(f_n^2 S) over the track from `ref` (circular) or over the track the code returns, itself decided by C07 (eccentric); cut at the merger, also in thousands of steps; slow limit; last second; linearity in g.",
        "3-60 steps. Eccentric sources merging within 0.1 yr are the known finding below."),
"C14": ("Every member against the single-source SNR function of its case (decided by C12/C13), case from the reference threshold and chirp law; collections scored again after mergers; harmonics per member from the reference; subsets, order, rest of the collection, subclasses, masks and their partition.",
        "1-8 members of every kind, all settings. A member at a rounding edge of a case may take either."),
"C15": ("Own sum over the harmonics table; number of harmonics sufficient, and not more than the neighbouring table entry needs; threshold; setter against a fresh collection; argmax of g.",
        "tolerance 1e-6..0.9, e to 0.96 (table) and beyond. The last table interval (e > 0.958, tolerance < 2e-4) is not decided: the table itself is truncated at n = 1000."),
"C16": ("Reference model: a dictionary with the documented rules; after every step the interpolated curve equals the PSD of the reported parameters and the SNR that of a fresh collection; any subset of the parameters as arguments of get_snr* against all of them set.",
        "Up to 12 operations over up to three collections incl. rejected changes; every single-parameter change from every base."),
"C17": ("numpy indexing of a table of rows as the model; every live collection judged after every step of a history of index, copy, set, compute and evolve operations.",
        "up to 12 steps, up to 6 related collections; negative, empty, out-of-range and wrong-type indices."),
"C18": ("Round trip through HDF5 in a scratch directory; loaded collection compared attribute by attribute and by what it computes; load-save-load a fixed point; file replacement rules.",
        "all classes, sky positions, weights, custom curves, saved before/after computations."),
"C19": ("Exact Peters trajectories from the *initial* state plus a reference book of elapsed times, merged flags and remaining times; judged after every leg, copy, SNR and new collection.",
        "up to 8 steps; one common time, one per member, integer and float32 quantities."),
"C20": ("Purity of the public functions and of collections: inputs unchanged (bytes), bit-identical when repeated, independent of earlier calls (compared with a pristine process), invariant under units, permutation and batch/alone (to rounding).",
        "about 40 public functions; histories of up to 8 calls that share arguments. Rounding-amplifying inputs are recognised (both outcomes of a decision accepted at its edge)."),
"C21": ("A defect of known kind is put at a random place of an otherwise valid input; the documented exception type is required, and valid input has to be accepted.",
        "all constructor arguments, functions, parameters; scalars, lists, single elements."),
"C22": ("Differential: interpolated against direct (and against `ref`), element-wise accuracy from the table spacing (2e-4 for g, 3e-4 for the curve); outside the table no contribution; undershooting tables give zero; the helper that generates the table runs in a scratch directory.",
        "e to 0.97, n to 10^4; noise curves over 95 % of the band."),
"C23": ("The drawn artists (offsets, sizes, bars, KDE curves, fills, limits, labels) are read back with matplotlib's Agg backend and compared with the reference data; rcParams and inputs compared before/after; announced counts parsed; densities against those seaborn draws of the same data and weights.",
        "all public plot functions and options; 1-12 members."),
"C24": ("Expected text and colour codes built independently; logging environments (terminal or not via pseudo-terminals, user handlers, root handlers, repeated imports, fresh interpreters); operations' messages captured and compared with what the reference says should be announced.",
        "messages about saved files may be printed on stdout or logged (existing tests rely on the former)."),
"C25": ("Differential: n_proc in 1..16 against one process, bit-identical, same order.",
        "2-60 sources, often fewer than processes. Schedules are those of multiprocessing's Pool on 8 cores; they are not controlled."),
"C26": ("Underlying formulas per member (decided by C01, C04, C05), subset requests, separation setter, edits of attributes between computations against a fresh collection, ranges and distribution of random angles, built-in binaries against the table they are read from.",
        "1-6 members, merged included, all classes."),
"C27": ("Differential: a random subset of the optional arguments is omitted; the same call with the documented defaults spelled out by name, by position and mixed must give bit-identical results (rendered pictures for plots), and the omitted call once more.",
        "28 functions, three constructors, 12 methods, 6 plots; the defaults are a table in the check, taken from the documentation. The observation time of decigo_psd, for which documentation and signature differ, is always given."),
}

TAIL = """
## Genuine defects found

Every one was shown on the real code by a check, and either repaired in /repo (one `fix:` commit each) or recorded. They are
listed in `known_findings.txt`; the recorded ones are identified by a key that only the specific history produces:

* `C13 key=ecc-last-0.1yr`: `snr_ecc_evolving` (hence collections) gives SNR 0 for an eccentric source that merges within
  0.1 yr: the avoidance window is hard-coded. Choosing another window is a physics decision, so it is not repaired.
* `C16 key=auto-t_obs`: the SNR methods store the observation time that "auto" stood for, so a later SNR of another
  instrument keeps it. A repair means changing what the stored parameter reports (existing tests look at it).

Repairs so far are the `fixed:` lines there. One attempted repair (warnings about saved files through the logger) was wrong
(existing tests read them from stdout) and was undone by its own commit (5660f7f, 40a36cc).

## Seen, and deliberately not judged

Behaviour outside the statements, or too small or too much a matter of taste to be a defect:

* `evolve_sources(create_new_class=True)` always returns a plain `Source`; `snr` is not recomputed or cleared by evolving in
  place or by editing attributes, and a saved `t_merge` is not refreshed when the user edits `f_orb` or the masses;
  `evolve_sources` ignores `n_proc`; `sources[True]` is the integer 1; `sources[[]]` is rejected; numpy's `True_` is not
  accepted as a mask value; 0-d unitless numpy arrays fail; a non-string confusion model gives TypeError; wrong *physical*
  units pass the constructor.
* `get_snr(which_sources)` returns a full-length array with zeros elsewhere; `max_snr_harmonic` stays None if all members
  have merged; evolving members ignore a sky position (announced by a warning); the SNR at a given position is about
  sqrt(0.15) of the averaged one (the averaged formula already includes the sky average in the noise curve).
* DECIGO's automatic observation time is 5 yr in `Source` and 4 yr in `psd`; custom confusion functions get plain numbers
  from LISA/DECIGO and Quantities from TianQin; interpolated curves of TianQin and custom instruments stop at 2 Hz.
* The Mandel fit docstring says 0.5 % where the fit is off by up to 2.9 % near e = 0.9975; gw_lum_tol >= 1 fails.
* `create_timesteps_array` and `check_mass_freq_input` may hand back the caller's own array; `Source` keeps references to
  the arrays it is given; `g_vals[g_vals < 0] = 0` writes into what a user-supplied `interpolated_g` returns.
* ecdf plots are labelled dN/d...; a log-scaled histogram with Quantity limits is not supported.

## False alarms met and corrected

(all were faults of a check, none is listed as a finding) denormal fractions of the merger time in C06/C07; dimension check of
interpolated curves; underflow at 1e-300; DECIGO band edges after unit conversion (C16); cancellation for hardly evolving members
(C14); wrong eccentricity tolerance, stale snapshot and float32 rounding in C19's model; matplotlib's own debug messages on the
root logger (C24); integers accepted as model names (C21); bit-identity asked for mHz->Hz (C26); same variable on both axes, KDE
support, and logger captured by our own silencer (C23); NaN reference beyond the response table and too tight 3e-4 at low frequency
(C22); aliasing of `s.f_orb` with returned timesteps, thiele21 with other mission lengths (C20); thiele21 through the automatic
mission time (C16).

## Planted bugs

`/verif/seeded/<id>` holds each change with its demonstration. All were confirmed in a scratch copy: the stable tests pass with
the change, the demonstration fails with it and passes without. "caught by" lists the checks that report it in the quick tier
(seed 1); "first missed" the checks that had to be strengthened for it.
"""
