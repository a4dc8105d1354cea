# what decides each property (shown as "technique" in MANIFEST.json) and its limits ("level_note")
TECH = {
    "C01": "generated inputs against closed forms in SI, round trips and unit/container relations",
    "C02": "generated harmonics and eccentricities against the Fourier spectrum of a sampled Kepler orbit and Bessel sums",
    "C03": "generated sky positions against an explicit orbit average of the detector tensor and exact sky quadrature",
    "C04": "generated (source, timestep, harmonic) grids against the quadrupole formula, scaling relations",
    "C05": "generated binaries on every branch against adaptive quadrature of Peters' integral, metamorphic relations",
    "C06": "generated evolutions against the exact inspiral law, two-legs-equal-one and batch relations",
    "C07": "generated evolutions against the inverted time-to-merger integral, two-legs-equal-one and batch relations",
    "C08": "generated calls against a reference model of the output contract",
    "C09": "generated binaries near and far from the boundary against the exact chirp law, monotonicity relations",
    "C10": "generated settings against independently coded published noise curves, an injected missing file",
    "C11": "generated frequencies and mission lengths against independently coded published fits",
    "C12": "generated sources and settings against a reference sum, scaling and order relations",
    "C13": "generated evolving sources against a reference integral along the track, scaling and limits",
    "C14": "generated mixed collections, every member against the single-source function of its reference case; subset and neighbour relations",
    "C15": "generated tolerances and eccentricities against an own sum over harmonics; setter histories against fresh collections",
    "C16": "stateful: generated histories of parameter changes against a dictionary model and fresh collections",
    "C17": "stateful: generated histories of indexing, copying and changes against a numpy table model",
    "C18": "round trip of generated collections through files, load-save-load fixed point",
    "C19": "stateful: generated evolution histories against exact trajectories and a book of elapsed times",
    "C20": "generated calls and call histories: bit-identity with a pristine process, unit, permutation and batch relations",
    "C21": "fault injection into generated valid input, documented exception as oracle",
    "C22": "differential: interpolated against direct computation on generated sources and settings",
    "C23": "generated data and collections; drawn artists read back and compared with reference data",
    "C24": "generated records, logging environments and operations against an independently built expected output",
    "C25": "differential: generated batches over random process counts against one process, bit for bit",
    "C26": "generated collections and edit histories against formulas and fresh collections",
    "C27": "differential: generated calls with random subsets of arguments omitted, positional or named, against the call with every documented default spelled out",
}
_COMMON = ("Random search with shrinking; no proof of absence. Trusts numpy/scipy/astropy and the reference formulas in vf/ref.py, written from the papers. ")
NOTE = {p: _COMMON + extra for p, extra in {
    "C07": "Accuracy is only required to the integrator's tolerance, and not within 1e-3 of the merger time.",
    "C13": "Eccentric tracks are taken from evol_ecc, which C07 decides. One known finding (sources merging within 0.1 yr).",
    "C15": "Runs on a surrogate of the harmonics table, which the repository lacks; the truncated last table interval is not decided.",
    "C16": "One known finding (the observation time that 'auto' stood for is kept).",
    "C22": "Runs on surrogates of the tables that the repository lacks, generated from the reference g(n,e).",
    "C25": "Schedules of the process pool are whatever the machine gives; they are not controlled.",
}.items()}
