"""C27 documented defaults and argument order"""
import copy
import os
import tempfile

import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check
from ..gen import col, ecc, logf, mass, q, quiet, same, structured, units, val
from .c17 import expect, snapshot
from legwork import evol, psd, snr, source, strain, utils, visualisation

P = "C27"
REQ = "required"         # stands for "has no default"
ROW = st.fixed_dictionaries({"m1": mass, "m2": mass, "e": ecc(0.8), "d": logf(0.01, 1e4), "f": logf(1e-5, 1e-2), "w": st.floats(0.1, 9), "th": st.floats(0.1, 3.0), "ph": st.floats(0, 6.2),
                             "psi": st.floats(0, 3.1), "inc": st.floats(0, 3.1)})
XS = st.tuples(st.floats(0, 1), st.floats(0, 1), st.floats(0, 1), st.floats(0, 1), st.floats(0, 1))


def between(lo, hi, x):
    """log-uniform"""
    return float(lo * (hi / lo)**x)


class Ctx:
    """values that the arguments take"""

    def __init__(self, case):
        r, self.x = case["rows"], case["x"]
        un = case["units"]
        self.n = len(r)
        self.m1, self.m2 = q(col(r, "m1"), "Msun", un["mass"]), q(col(r, "m2"), "Msun", un["mass"])
        self.mc = ref.chirp_mass(col(r, "m1"), col(r, "m2")) * u.Msun
        self.e, self.d, self.f = col(r, "e"), q(col(r, "d"), "kpc", un["dist"]), q(col(r, "f"), "Hz", un["freq"])
        self.a = q(ref.sma(col(r, "f"), col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN), "m", un["len"])
        self.beta = ref.beta(col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN) * u.m**4 / u.s
        self.inc, self.psi, self.w = (col(r, "inc") * u.rad).to(u.deg), col(r, "psi") * u.rad, col(r, "w")
        self.pos = SkyCoord(lon=col(r, "ph") * u.rad, lat=(np.pi / 2 - col(r, "th")) * u.rad, distance=self.d, frame="barycentrictrueecliptic")
        # merger times for time scales of evolution
        self.tm = np.array([ref.t_merge(a, e, b) for a, e, b in zip(self.a.to(u.m).value, self.e, self.beta.value)]) / ref.YR
        self.t = float(self.tm.min() * between(1e-3, 0.5, self.x[0])) * u.yr
        self.fs = np.logspace(-6, 0.5, 60) * u.Hz
        self.T = between(0.5, 10, self.x[1]) * u.yr
        self.L = between(1e9, 4e9, self.x[2]) * u.m
        self.n_step = 2 + int(30 * self.x[3])
        self.steps = np.linspace(0, 1, 5) * self.t


def custom(f, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto"):
    return 1e-41 * (1 + (1e-3 * u.Hz / f).decompose().value**2) / u.Hz


def fake_g(n, e):
    return utils.peters_g(n, e) * 1.25


def fake_sc(f):
    return np.full(np.shape(f), 2e-41) / u.Hz


def odd_noise(f, t_obs=None):
    return np.full(np.shape(f), 1e-41) / u.Hz


def f_args(c):
    """mass and frequency arguments, either way"""
    k = int(4 * c.x[4])
    m = {"m_1": c.m1, "m_2": c.m2} if k % 2 else {"beta": c.beta}
    return dict({"beta": None, "m_1": None, "m_2": None, "a_i": None, "f_orb_i": None}, **m, **({"a_i": c.a} if k >= 2 or not k % 2 else {"f_orb_i": c.f}))


def pairs(d):
    return [(k, None, v) for k, v in d.items()]


def snr_noise():
    return []


# name -> function, [(parameter, documented default, another value)] in documented order
def table(name, c):
    mass_freq = f_args(c)
    R = REQ
    MF = pairs(mass_freq)
    if name == "create_timesteps_array":
        return evol.create_timesteps_array, [("a_i", R, c.a), ("beta", R, c.beta), ("ecc_i", None, c.e), ("t_evol", R, c.t), ("n_step", 100, c.n_step), ("timesteps", None, c.steps)]
    if name == "timesteps_merger":
        return evol.create_timesteps_array, [("a_i", R, c.a), ("beta", R, c.beta), ("ecc_i", R, c.e), ("t_evol", None, None), ("n_step", 100, c.n_step), ("timesteps", None, None)]
    if name == "evol_circ":
        mf = dict(mass_freq, m_1=c.m1, m_2=c.m2)
        return evol.evol_circ, [("t_evol", R if c.x[3] < 0.8 else None, c.t if c.x[3] < 0.8 else None), ("n_step", 100, c.n_step), ("timesteps", None, c.steps if c.x[3] > 0.6 else None), *pairs(mf),
                                ("output_vars", "f_orb", ["timesteps", "f_GW"])]
    if name == "evol_ecc":
        mf = dict(mass_freq, m_1=c.m1, m_2=c.m2)
        return evol.evol_ecc, [("ecc_i", R, np.maximum(c.e, 1e-3)), ("t_evol", R, c.t), ("n_step", 100, c.n_step), ("timesteps", None, c.steps if c.x[3] > 0.6 else None), *pairs(mf),
                               ("output_vars", ["ecc", "f_orb"], ["timesteps", "a", "ecc"]), ("n_proc", 1, 1), ("avoid_merger", True, False), ("exact_t_merge", False, True),
                               ("t_before", 1 * u.Myr, 0.3 * c.t), ("t_merge", None, c.tm * u.yr)]
    if name == "get_t_merge_circ":
        return evol.get_t_merge_circ, MF
    if name == "get_t_merge_ecc":
        d = dict(pairs_to_dict(MF))
        return evol.get_t_merge_ecc, [("ecc_i", R, c.e), *[(k, None, d[k]) for k in ("a_i", "f_orb_i", "beta", "m_1", "m_2")], ("small_e_tol", 0.15, 0.02), ("large_e_tol", 1 - 1e-4, 0.5), ("exact", True, False)]
    if name == "get_t_merge_large_e":
        # eccentricities around the limits of the documented ranges
        e = np.array([0.1499, 0.15, 0.1501, 0.9998, 0.99989, 0.999901, 0.99995, 0.01])
        return evol.get_t_merge_ecc, [("ecc_i", R, e), ("a_i", None, np.full(8, c.a[0].to(u.m).value) * u.m), ("f_orb_i", None, None), ("beta", None, np.full(8, c.beta[0].value) * c.beta.unit),
                                      ("m_1", None, None), ("m_2", None, None), ("small_e_tol", 0.15, 0.02), ("large_e_tol", 1 - 1e-4, 0.5), ("exact", True, False)]
    if name == "evolve_f_orb_circ":
        return evol.evolve_f_orb_circ, [("f_orb_i", R, c.f), ("m_c", R, c.mc), ("t_evol", R, np.where(np.arange(c.n) % 2, 0.5, 1.5) * c.tm * u.yr), ("ecc_i", 0.0, c.e), ("merge_f", 1e9 * u.Hz, 100 * u.Hz)]
    if name == "determine_stationarity":
        k = c.x[4] < 0.5
        x = 3e-3 * 10**(2 * c.x[3])
        t = (1 - (1 + x)**(-8. / 3)) * (c.a.to(u.m).value**4 / (4 * c.beta.value)) / ref.YR / np.array([ref.peters_f(e) for e in c.e])
        return evol.determine_stationarity, [("f_orb_i", R, c.f), ("t_evol", R, float(np.median(t)) * u.yr), ("ecc_i", R, c.e), ("m_1", None, c.m1 if k else None), ("m_2", None, c.m2 if k else None),
                                             ("m_c", None, None if k else c.mc), ("stat_tol", 1e-2, 0.05)]
    if name == "load_response_function":
        return psd.load_response_function, [("f", R, c.fs.value[c.fs.value < 0.3]), ("fstar", 19.09e-3, 0.03)]
    if name == "lisa_psd":
        return psd.lisa_psd, [("f", R, c.fs), ("t_obs", 4 * u.yr, c.T), ("L", 2.5e9 * u.m, c.L), ("approximate_R", False, True), ("confusion_noise", "karnesis21", pick(c, ["robson19", None, "huang20", odd_noise]))]
    if name == "tianqin_psd":
        return psd.tianqin_psd, [("f", R, c.fs), ("L", np.sqrt(3) * 1e5 * u.km, c.L), ("t_obs", 5 * u.yr, c.T), ("approximate_R", None, True), ("confusion_noise", "huang20", pick(c, ["robson19", None, odd_noise]))]
    if name == "decigo_psd":
        # (the observation time has no effect that is documented for frequencies of this instrument)
        return psd.decigo_psd, [("f", R, np.logspace(-3.5, 2.5, 50) * u.Hz), ("L", None, 1e6 * u.m), ("t_obs", R, c.T), ("approximate_R", None, True), ("confusion_noise", "karnesis21", pick(c, ["robson19", None, odd_noise])),
                                ("f_low", 1e-3 * u.Hz, 1e-2 * u.Hz), ("f_high", 1e2 * u.Hz, 10 * u.Hz)]
    if name == "power_spectral_density":
        return psd.power_spectral_density, [("f", R, c.fs), ("instrument", "LISA", pick(c, ["TianQin", "DECIGO", "custom"])), ("custom_psd", None, custom), ("t_obs", "auto", c.T), ("L", "auto", c.L),
                                            ("approximate_R", False, True), ("confusion_noise", "auto", pick(c, ["robson19", None, "huang20", odd_noise]))]
    if name in ("robson19", "karnesis21", "huang20"):
        return getattr(psd, "get_confusion_noise_" + name), [("f", R, c.fs), ("t_obs", (5 if name == "huang20" else 4) * u.yr, c.T)]
    if name == "get_confusion_noise":
        return psd.get_confusion_noise, [("f", R, c.fs), ("model", R, pick(c, ["robson19", "karnesis21", "huang20", "thiele21", None])), ("t_obs", "auto", c.T)]
    if name in ("h_0_n", "h_c_n"):
        sky = c.x[4] < 0.5
        e = np.zeros(c.n) if sky else c.e
        return getattr(strain, name), [("m_c", R, c.mc), ("f_orb", R, c.f), ("ecc", R, e), ("n", R, np.array([1, 2, 3])), ("dist", R, c.d), ("position", None, c.pos if sky else None),
                                       ("polarisation", None, c.psi if sky else None), ("inclination", None, c.inc if sky else None), ("interpolated_g", None, fake_g)]
    if name == "peters_g":
        return utils.peters_g, [("n", R, 3), ("e", R, c.e)]
    if name == "fn_dot":
        return utils.fn_dot, [("m_c", R, c.mc), ("f_orb", R, c.f), ("e", R, c.e), ("n", R, 2)]
    if name == "conversions":
        k = int(4.999 * c.x[4])
        return [(utils.get_a_from_f_orb, [("f_orb", R, c.f), ("m_1", R, c.m1), ("m_2", R, c.m2)]), (utils.get_f_orb_from_a, [("a", R, c.a), ("m_1", R, c.m1), ("m_2", R, c.m2)]),
                (utils.c_0, [("a_i", R, c.a), ("ecc_i", R, np.maximum(c.e, 0.01))]), (utils.get_a_from_ecc, [("ecc", R, np.maximum(c.e, 0.01)), ("c_0", R, c.a)]),
                (utils.F_plus_squared, [("theta", R, c.inc), ("phi", R, c.psi), ("psi", R, c.psi * 0.5)])][k]
    if name == "amplitude_modulation":
        return strain.amplitude_modulation, [("position", R, c.pos), ("polarisation", R, c.psi), ("inclination", R, c.inc)]
    if name == "snr_circ_stationary":
        return snr.snr_circ_stationary, [("m_c", R, c.mc), ("f_orb", R, c.f), ("dist", R, c.d), ("t_obs", R, c.T), ("position", None, c.pos), ("polarisation", None, c.psi), ("inclination", None, c.inc),
                                         ("interpolated_g", None, fake_g), ("interpolated_sc", None, fake_sc)]
    if name == "snr_circ_evolving":
        return snr.snr_circ_evolving, [("m_1", R, c.m1), ("m_2", R, c.m2), ("f_orb_i", R, c.f), ("dist", R, c.d), ("t_obs", R, c.T), ("n_step", R, c.n_step), ("t_merge", None, c.tm * 1.5 * u.yr),
                                       ("interpolated_g", None, fake_g), ("interpolated_sc", None, fake_sc)]
    if name == "snr_ecc_stationary":
        return snr.snr_ecc_stationary, [("m_c", R, c.mc), ("f_orb", R, c.f), ("ecc", R, c.e), ("dist", R, c.d), ("t_obs", R, c.T), ("harmonics_required", R, 6), ("interpolated_g", None, fake_g),
                                        ("interpolated_sc", None, fake_sc), ("ret_max_snr_harmonic", False, True), ("ret_snr2_by_harmonic", False, True)]
    if name == "snr_ecc_evolving":
        return snr.snr_ecc_evolving, [("m_1", R, c.m1), ("m_2", R, c.m2), ("f_orb_i", R, c.f), ("dist", R, c.d), ("ecc", R, np.maximum(c.e, 1e-3)), ("harmonics_required", R, 5), ("t_obs", R, c.T),
                                      ("n_step", R, min(c.n_step, 8)), ("t_merge", None, ecc_merge(c)), ("interpolated_g", None, fake_g), ("interpolated_sc", None, fake_sc), ("n_proc", 1, 1),
                                      ("ret_max_snr_harmonic", False, True), ("ret_snr2_by_harmonic", False, True)]
    raise KeyError(name)


NAMES = ["create_timesteps_array", "timesteps_merger", "evol_circ", "evol_ecc", "get_t_merge_circ", "get_t_merge_ecc", "get_t_merge_large_e", "evolve_f_orb_circ", "determine_stationarity",
         "load_response_function", "lisa_psd", "tianqin_psd", "decigo_psd", "power_spectral_density", "robson19", "karnesis21", "huang20", "get_confusion_noise", "h_0_n", "h_c_n", "peters_g",
         "fn_dot", "conversions", "amplitude_modulation", "snr_circ_stationary", "snr_circ_evolving", "snr_ecc_stationary", "snr_ecc_evolving"]


def ecc_merge(c):
    return np.array([ref.t_merge(a, e, b) for a, e, b in zip(c.a.to(u.m).value, np.maximum(c.e, 1e-3), c.beta.value)]) / ref.YR * u.yr


def pairs_to_dict(p):
    return {k: v for k, _, v in p}


def pick(c, options):
    return options[int(c.x[4] * len(options)) % len(options)]


def outcome(fn, args, kw):
    """what a call gives: a result or the type of an error"""
    try:
        return "result", fn(*copy.deepcopy(args), **copy.deepcopy(kw))
    except (ValueError, AssertionError) as e:
        return "error", type(e)


def identical(got, want, what):
    check(got[0] == want[0], "{}: {} instead of {}".format(what, got, want)[:400])
    if got[0] == "error":
        return check(got[1] is want[1], what + ": another error", got=got[1], want=want[1])
    alike(got[1], want[1], what)


def alike(g, w, what):
    if isinstance(w, (tuple, list)) and not isinstance(w, u.Quantity):
        check(isinstance(g, (tuple, list)) and len(g) == len(w), what + ": number of results", got=g, want=w)
        for i, (a, b) in enumerate(zip(g, w)):
            alike(a, b, "{} [{}]".format(what, i))
    elif w is None:
        check(g is None, what, got=g)
    else:
        same(g, w, what)


def compare(fn, params, omit, rec, what):
    """the call with some arguments left out against the one in which they have their documented defaults"""
    given = [(k, v) for i, (k, d, v) in enumerate(params) if not (omit >> i & 1) or (isinstance(d, str) and d == REQ)]
    full = [(k, d if (omit >> i & 1) and not (isinstance(d, str) and d == REQ) else v) for i, (k, d, v) in enumerate(params)]
    out = [k for k, _ in full if k not in dict(given)]
    first = outcome(fn, (), dict(given))
    rec.label(first[0])
    rec.nontrivial(bool(out) and first[0] == "result")
    identical(outcome(fn, tuple(v for _, v in full), {}), first, "{} with all arguments by position, against {} left out".format(what, out))
    identical(outcome(fn, (), dict(reversed(full))), first, "{} with all arguments by name, against {} left out".format(what, out))
    half = len(full) // 2
    identical(outcome(fn, tuple(v for _, v in full[:half]), dict(full[half:])), first, "{} with some arguments by position, against {} left out".format(what, out))
    identical(outcome(fn, (), dict(given)), first, "{} with {} left out, called again".format(what, out))


@facet(P, "functions", st.fixed_dictionaries({"name": st.sampled_from(NAMES), "rows": structured(st.lists(ROW, min_size=1, max_size=4)), "x": XS, "units": units("mass", "freq", "dist", "len"),
                                              "omit": st.one_of(st.integers(0, 2**17 - 1), st.just(2**17 - 1), st.integers(0, 16).map(lambda i: 2**17 - 1 - 2**i), st.integers(0, 16).map(lambda i: 2**i))}), 1000, 20000,
       "calls of the functional interface with a random part of the optional arguments left out, spelled out with the documented defaults by name, by position, and mixed: identical results; "
       "non-trivial: something left out of a valid call", shards=4, thorough_shards=8)
def functions(case, rec):
    c = Ctx(case)
    fn, params = table(case["name"], c)
    rec.label(case["name"])
    keep = case["omit"]
    for i, (k, d, v) in enumerate(params):
        # the arguments that define the source have no default to fall back on
        if k in ("beta", "m_1", "m_2", "m_c", "a_i", "f_orb_i") and v is not None:
            keep &= ~(1 << i)
        # (a custom instrument needs its function)
        if k == "custom_psd" and dict((a, b) for a, _, b in params).get("instrument") == "custom":
            keep &= ~(1 << i)
        if k == "interpolated_g" and d is None and v is None:
            keep |= 1 << i
    # (a sky position, polarisation and inclination belong together)
    trio = [i for i, (k, d, v) in enumerate(params) if k in ("position", "polarisation", "inclination") and d is None and v is not None]
    if any(keep >> i & 1 for i in trio):
        for i in trio:
            keep |= 1 << i
    with quiet():
        compare(fn, params, keep, rec, case["name"])


# --- the collection class --------------------------------------------------------------------------------
@facet(P, "constructor", st.fixed_dictionaries({"rows": structured(st.lists(ROW, min_size=1, max_size=4)), "x": XS, "units": units("mass", "freq", "dist", "len"), "use_a": st.booleans(), "sky": st.booleans(),
                                                "klass": st.sampled_from(["Source", "Stationary", "Evolving"]), "omit": st.one_of(st.integers(0, 2**13 - 1), st.just(2**13 - 1))}), 20, 300,
       "collections built with a random part of the optional arguments left out, spelled out with the documented defaults, by position and by name: same members, settings, noise curve and strains; "
       "non-trivial: something left out", data=("harmonics", "peters_g"), shards=4, thorough_shards=8)
def constructor(case, rec):
    c = Ctx(case)
    e = np.zeros(c.n) if case["sky"] else c.e
    sky = case["sky"]
    auto = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}
    params = [("m_1", REQ, c.m1), ("m_2", REQ, c.m2), ("ecc", REQ, e), ("dist", REQ, c.d), ("n_proc", 1, 2), ("f_orb", REQ, None if case["use_a"] else c.f), ("a", REQ, c.a if case["use_a"] else None),
              ("position", REQ, c.pos if sky else None), ("polarisation", REQ, c.psi if sky else None), ("inclination", REQ, c.inc if sky else None), ("weights", None, c.w),
              ("gw_lum_tol", 0.05, 0.02), ("stat_tol", 1e-2, 0.2), ("interpolate_g", True, False), ("interpolate_sc", True, False), ("sc_params", auto, {"instrument": "TianQin", "t_obs": 2 * u.yr})]
    full_omit = sum(1 << i for i, (k, d, v) in enumerate(params) if not (isinstance(d, str) and d == REQ))
    omit = sum((case["omit"] >> j & 1) << i for j, i in enumerate(i for i in range(len(params)) if full_omit >> i & 1))
    klass = getattr(source, case["klass"])
    given = {k: v for i, (k, d, v) in enumerate(params) if not omit >> i & 1}
    full = [(k, d if omit >> i & 1 else v) for i, (k, d, v) in enumerate(params)]
    out = [k for i, (k, d, v) in enumerate(params) if omit >> i & 1]
    rec.nontrivial(bool(out))
    rec.label(*out)
    with quiet():
        one = klass(**copy.deepcopy(given))
        # before anything else could change a shared default
        many = [(klass(*copy.deepcopy([v for _, v in full])), "by position"), (klass(**copy.deepcopy(dict(reversed(full)))), "by name"), (klass(**copy.deepcopy(given)), "again")]
        f = np.logspace(-5, 0, 30) * u.Hz
        want = snapshot(one)
        for two, how in many:
            what = "collection with all arguments {}, against {} left out".format(how, out)
            expect(two, want, what)
            check((one.g is None) == (two.g is None) and (one.sc is None) == (two.sc is None), what + ": interpolated functions", got=(two.g, two.sc), want=(one.g, one.sc))
            check(two.n_proc == one.n_proc and two.interpolate_sc == one.interpolate_sc, what + ": settings")
            if one.sc is not None:
                same(two.sc(f), one.sc(f), what + ": noise curve")
            same(two.get_h_0_n([1, 2, 3]), one.get_h_0_n([1, 2, 3]), what + ": strain")
            same(np.asarray(two.harmonics_required(np.linspace(0, 0.9, 20))), np.asarray(one.harmonics_required(np.linspace(0, 0.9, 20))), what + ": harmonics required")
        d = dict(full)
        check(one.gw_lum_tol == d["gw_lum_tol"] and one.stat_tol == d["stat_tol"] and one.n_proc == d["n_proc"], "tolerances and processes", got=(one.gw_lum_tol, one.stat_tol, one.n_proc), want=d)
        check((one.g is not None) == d["interpolate_g"] and (one.sc is not None) == d["interpolate_sc"], "what is interpolated", got=(one.g, one.sc), want=d)
        for k, v in dict(auto, **d["sc_params"]).items():
            got = one.sc_params[k]
            check(got == v if not isinstance(v, u.Quantity) else (isinstance(got, u.Quantity) and got == v), "noise parameter " + k, got=got, want=v)


METHODS = ["get_snr", "get_snr_stationary", "get_snr_evolving", "get_merger_time", "evolve_sources", "get_source_mask", "get_h_0_n", "get_h_c_n", "save", "get_snr", "get_source_mask", "evolve_sources",
           "stationary_snr", "evolving_snr"]
PARAMS = st.fixed_dictionaries({}, optional={"instrument": st.sampled_from(["LISA", "TianQin", "DECIGO"]), "t_obs": logf(0.5, 10.), "L": logf(1e9, 4e9), "approximate_R": st.booleans(),
                                             "confusion_noise": st.sampled_from(["auto", "robson19", "huang20"])})


def some_params(p):
    p = dict(p)
    if "t_obs" in p:
        p["t_obs"] = p["t_obs"] * u.yr
    if "L" in p:
        p["L"] = p["L"] * u.m
    return p


@facet(P, "methods", st.fixed_dictionaries({"rows": coll.collection(max_size=4, hi=0.7), "set": coll.SETTINGS, "x": XS, "sc_params": PARAMS, "other": PARAMS, "name": st.sampled_from(METHODS), "evolve": st.booleans(),
                                            "omit": st.one_of(st.integers(0, 2**9 - 1), st.just(2**9 - 1), st.integers(0, 8).map(lambda i: 2**9 - 1 - 2**i))}), 160, 3000,
       "methods of collections with random noise parameters, with a random part of the arguments left out or spelled out with the value they stand for, by position or by name: identical results "
       "and identical state afterwards; non-trivial: something left out", data=("harmonics",), shards=4, thorough_shards=8)
def methods(case, rec):
    x, name, oth = case["x"], case["name"], some_params(case["other"])
    sp = some_params(case["sc_params"])
    klass = {"stationary_snr": source.Stationary, "evolving_snr": source.Evolving}.get(name, source.Source)

    def fresh():
        s = coll.make(case["rows"], case["set"], klass, sc_params=dict(sp))
        if case["evolve"]:
            s.evolve_sources(10**(6 * x[3]) * u.yr)
        return s
    with quiet(), tempfile.TemporaryDirectory() as tmp:
        s = fresh()
        n = s.n_sources
        T = (4 if s.sc_params["instrument"] == "LISA" else 5) * u.yr if s.sc_params["t_obs"] == "auto" else s.sc_params["t_obs"]
        which = np.arange(n) % 2 == 0
        noise = [("t_obs", s.sc_params["t_obs"], oth.get("t_obs", 3 * u.yr)), ("instrument", s.sc_params["instrument"], oth.get("instrument", "TianQin")), ("custom_psd", None, None),
                 ("L", s.sc_params["L"], oth.get("L", 2e9 * u.m)), ("approximate_R", s.sc_params["approximate_R"], oth.get("approximate_R", True)),
                 ("confusion_noise", s.sc_params["confusion_noise"], oth.get("confusion_noise", "robson19"))]
        step, ver, wh = ("n_step", 100, 3 + int(5 * x[1])), ("verbose", False, False), ("which_sources", np.ones(n, bool), which)
        params = {"get_snr": noise + [step, ver, wh], "get_snr_stationary": noise + [wh, ver], "get_snr_evolving": noise + [step, wh, ver],
                  "stationary_snr": noise[:3] + [ver], "evolving_snr": noise[:3] + [step, ver],
                  "get_merger_time": [("save_in_class", True, False), wh, ("exact", True, False)],
                  "evolve_sources": [("t_evol", REQ, 10**(4 * x[2]) * u.yr), ("create_new_class", False, True)],
                  "get_source_mask": [("circular", None, x[0] < 0.5), ("stationary", None, x[1] < 0.5), ("t_obs", T, 10**(4 * x[2]) * u.yr)],
                  "get_h_0_n": [("harmonics", REQ, [1, 2, 5]), ("which_sources", np.ones(n, bool), which)], "get_h_c_n": [("harmonics", REQ, [1, 2, 5]), ("which_sources", np.ones(n, bool), which)],
                  "save": [("file_name", REQ, os.path.join(tmp, "x.h5")), ("overwrite", False, True)]}[name]
        omit = case["omit"]
        if name == "get_source_mask" and not (omit & 2):
            omit |= case["omit"] & 4
        given = [(k, v) for i, (k, d, v) in enumerate(params) if not (omit >> i & 1) or (isinstance(d, str) and d == REQ)]
        full = [(k, d if (omit >> i & 1) and not (isinstance(d, str) and d == REQ) else v) for i, (k, d, v) in enumerate(params)]
        out = [k for k, _ in full if k not in dict(given)]
        rec.nontrivial(bool(out))
        rec.label(name)
        method = {"stationary_snr": "get_snr", "evolving_snr": "get_snr"}.get(name, name)
        results = []
        for args, kw, how in [((), dict(given), "left out"), (tuple(v for _, v in full), {}, "by position"), ((), dict(reversed(full)), "by name"), (tuple(v for _, v in full[:2]), dict(full[2:]), "mixed")]:
            t = fresh()
            if name == "save":
                if os.path.exists(full[0][1]):
                    os.remove(full[0][1])
                t.save(full[0][1])
                try:
                    t.save(*args, **kw)
                    r = "saved"
                except FileExistsError:
                    r = "refused"
                check(r == ("saved" if dict(full)["overwrite"] else "refused"), "saving onto a file", got=r, want=full)
                results.append((r, None, None, how))
                continue
            r = getattr(t, method)(*copy.copy(args), **kw)
            new = None
            if isinstance(r, source.Source):
                r, new = None, snapshot(r)
            results.append((r, new, snapshot(t), how))
            if name == "get_merger_time":
                check((t.t_merge is not None) == dict(full)["save_in_class"] or case["evolve"], "merger times kept in the collection", got=t.t_merge, want=full)
            if name == "evolve_sources":
                check((new is not None) == dict(full)["create_new_class"], "a new collection", got=new is not None, want=full)
        r0, new0, state0, _ = results[0]
        for r, new, state, how in results[1:]:
            what = "{} with all arguments {}, against {} left out".format(name, how, out)
            if name == "save":
                check(r == r0, what, got=r, want=r0)
                continue
            if r0 is None:
                check(r is None, what, got=r)
            else:
                same(r if isinstance(r, u.Quantity) else np.asarray(r), r0 if isinstance(r0, u.Quantity) else np.asarray(r0), what)
            check((new is None) == (new0 is None), what + ": new collection")
            # (the noise parameters become explicit when they are given)
            for a, b, w in ((state, state0, what + ": the collection afterwards"), (new, new0, what + ": the new collection")):
                if a is None:
                    continue
                for k in ("snr", "max_snr_harmonic", "t_merge", "merged", "ecc", "f_orb"):
                    if k in b:
                        alike(a[k], b[k], "{}: {}".format(w, k))


# --- plots -------------------------------------------------------------------------------------------------
@facet(P, "plots", st.fixed_dictionaries({"name": st.sampled_from(["1D", "2D", "curve", "sources", "collection", "collection_sc"]), "rows": structured(st.lists(ROW, min_size=2, max_size=6)), "x": XS,
                                          "units": units("mass", "freq", "dist", "len"), "omit": st.one_of(st.integers(0, 2**16 - 1), st.just(2**16 - 1))}), 36, 600,
       "plots with a random part of the options left out or spelled out with the documented defaults, by position or by name: identical pictures, and shown unless `show=False`; non-trivial: something left out",
       data=("harmonics",), shards=2, thorough_shards=4)
def plots(case, rec):
    import matplotlib.pyplot as plt
    c = Ctx(case)
    x, name = case["x"], case["name"]
    vals = np.sort(col(case["rows"], "m1")) * (1 + 0.1 * np.arange(c.n))
    fig = [("fig", None, None), ("ax", None, None)]
    vis = visualisation
    src = None
    if name == "1D":
        fn = vis.plot_1D_dist
        params = [("x", REQ, vals), ("weights", None, c.w), ("disttype", "hist", pick(c, ["ecdf", "kde"])), ("log_scale", False, True), *fig, ("show", True, False), ("figsize", (10, 7), (5, 4)), ("xlabel", None, "x"),
                  ("ylabel", None, "y"), ("xlim", None, (0.01, 100)), ("ylim", None, (0.1, 3)), ("color", None, "red")]
    elif name == "2D":
        fn = vis.plot_2D_dist
        params = [("x", REQ, vals), ("y", REQ, col(case["rows"], "d")), ("weights", None, c.w), ("disttype", "scatter", "scatter"), *fig, ("show", True, False), ("figsize", (12, 7), (5, 4)), ("xlabel", None, "x"),
                  ("ylabel", None, "y"), ("xlim", None, (0.01, 100)), ("ylim", None, (0.1, 3)), ("log_scale", False, (True, False)), ("color", None, "red"), ("scatter_s", 20, 55)]
    elif name == "curve":
        fn = vis.plot_sensitivity_curve
        params = [("frequency_range", np.logspace(-5, 0, 1000) * u.Hz, np.logspace(-4, -1, 50) * u.Hz), ("y_quantity", "ASD", "h_c"), *fig, ("show", True, False), ("figsize", (10, 7), (5, 4)), ("color", "#18068b", "red"),
                  ("fill", True, False), ("alpha", 0.2, 0.7), ("linewidth", 1, 3), ("label", None, "c")]
    elif name == "sources":
        fn = vis.plot_sources_on_sc
        params = [("f_dom", REQ, c.f * 2), ("snr", REQ, col(case["rows"], "d")), ("weights", None, c.w), ("snr_cutoff", 0, 1.0), ("t_obs", "auto", c.T), ("instrument", "LISA", "TianQin"), ("custom_psd", None, None),
                  ("L", "auto", c.L), ("approximate_R", False, True), ("confusion_noise", "auto", "robson19"), *fig, ("show", True, False), ("sc_vis_settings", {}, {"y_quantity": "h_c"})]
    else:
        src = source.Source(m_1=c.m1, m_2=c.m2, ecc=np.zeros(c.n), dist=c.d, f_orb=c.f / 20, weights=c.w if x[0] < 0.5 else None, interpolate_g=False, interpolate_sc=x[1] < 0.5)
        src.get_snr_stationary()
        src.snr = src.get_snr(n_step=3)
        if name == "collection":
            fn = src.plot_source_variables
            params = [("xstr", REQ, pick(c, ["m_1", "f_orb", "dist"])), ("ystr", None, "m_2"), ("which_sources", np.ones(c.n, bool), np.arange(c.n) >= 1), ("exclude_merged_sources", True, False), ("log_scale", False, True)]
        else:
            fn = src.plot_sources_on_sc
            params = [("snr_cutoff", 0, float(np.median(src.snr))), *fig, ("show", True, False), ("label", "Stationary sources", "mine"), ("sc_vis_settings", {}, {"y_quantity": "h_c"})]
    omit = case["omit"]
    given = [(k, v) for i, (k, d, v) in enumerate(params) if not (omit >> i & 1) or (isinstance(d, str) and d == REQ)]
    full = [(k, d if (omit >> i & 1) and not (isinstance(d, str) and d == REQ) else v) for i, (k, d, v) in enumerate(params)]
    out = [k for k, _ in full if k not in dict(given)]
    rec.label(name)
    rec.nontrivial(bool(out))
    shown, old = [], plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        pictures = []
        with quiet() as say:
            for args, kw, how in [((), dict(given), "left out"), (tuple(v for _, v in full), {}, "by position"), ((), dict(reversed(full)), "by name"), ((), dict(given), "left out again")]:
                plt.close("all")
                shown.clear()
                np.random.seed(1)
                r = fn(*copy.copy(args), **copy.copy(kw))
                what = "{} with arguments {}, {} left out".format(name, how, out if "left" in how else [])
                check(isinstance(r, tuple) and len(r) == 2, what + ": result", got=r)
                if r[0] is None:
                    pictures.append((None, how))
                    continue
                if plt.get_fignums():
                    check(len(shown) == bool(dict(full).get("show", True)), what + ": plt.show", got=len(shown), want=dict(full).get("show", True))
                r[0].set_dpi(50)
                r[0].canvas.draw()
                pictures.append((np.array(r[0].canvas.buffer_rgba()), how))
        for pic, how in pictures[1:]:
            what = "{} with all arguments {}, against {} left out".format(name, how, out)
            check((pic is None) == (pictures[0][0] is None), what + ": drawn at all")
            if pic is not None:
                check(pic.shape == pictures[0][0].shape, what + ": size of the picture", got=pic.shape, want=pictures[0][0].shape)
                check(np.array_equal(pic, pictures[0][0]), what + ": another picture")
    finally:
        plt.show = old
        plt.close("all")
