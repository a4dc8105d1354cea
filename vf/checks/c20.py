"""C20 computations are pure: no hidden state, mutation or neighbour effects"""
import copy
import os
import pickle
import struct

import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check, Violation
from ..gen import close, col, counts, logf, q, quiet, structured, units
from .c12 import loud
import legwork
from legwork import evol, psd, snr, source, strain, utils

P = "C20"
ROW = st.fixed_dictionaries({"m1": logf(0.5, 1e3), "m2": logf(0.5, 1e3), "f": logf(1e-5, 0.05), "fs": logf(2e-5, 0.5), "fw": st.one_of(logf(2e-5, 0.5), logf(1e-9, 300.)), "e": st.one_of(st.floats(0.01, 0.9), logf(1e-4, 0.5)), "d": logf(1e-2, 1e5),
                             "x": st.one_of(logf(8., 1e5), logf(8., 1e5), logf(0.5127, 8.)).map(lambda x: x * 1.0013711),      # (merges at none of the times)
                             "k": st.floats(0.05, 0.9), "th": st.floats(0.05, 3.09), "ph": st.floats(0.01, 6.27), "psi": st.floats(0.01, 3.1), "inc": st.floats(0.01, 3.1),
                             "w": st.floats(0.1, 5.)})
OPT = st.fixed_dictionaries({"n": counts(1, 25, 100, 101, 300), "T": st.sampled_from([1., 4., 5., 2.7]), "n_step": counts(2, 30, 101, 400, 1001), "inst": st.sampled_from([None, "LISA", "TianQin", "DECIGO"]),
                             "model": st.sampled_from([None, "none", "robson19", "karnesis21", "huang20", "thiele21", "loud"]), "L": st.one_of(st.none(), logf(1e9, 3e9)), "approx": st.booleans(),
                             "flag": st.booleans(), "flag2": st.booleans(), "var": st.integers(0, 5)})
UNIT = units("mass", "freq", "len", "dist", "time", "ang")


class Sky:
    """sky positions given as arrays, to be sliced and converted like other inputs"""

    def __init__(self, lon, lat):
        self.lon, self.lat = lon, lat


# every entry: fn(rows as columns, options) -> (function, per-source arguments {name: (value, unit, kind)}, other arguments, tolerance under unit changes)
CALLS = {}


def call(name):
    def deco(fn):
        CALLS[name] = fn
        return fn
    return deco


def orbits(c):
    """semi-major axis for a merger time of x yr; true orbital frequency"""
    m1, m2 = c["m1"] * ref.MSUN, c["m2"] * ref.MSUN
    b = ref.beta(m1, m2)
    a = np.array([(t * ref.YR / ref.t_merge(1.0, e, y))**0.25 for t, e, y in zip(c["x"], c["e"], b)])
    return b, a, ref.forb(a, m1, m2)


def masses(c):
    return {"m_1": (c["m1"], "Msun", "mass"), "m_2": (c["m2"], "Msun", "mass")}


@call("chirp_mass")
def _(c, o):
    return utils.chirp_mass, masses(c), {}, 1e-12


@call("beta")
def _(c, o):
    return utils.beta, masses(c), {}, 1e-12


@call("get_a_from_f_orb")
def _(c, o):
    return utils.get_a_from_f_orb, dict(masses(c), f_orb=(c["f"], "Hz", "freq")), {}, 1e-12


@call("get_f_orb_from_a")
def _(c, o):
    return utils.get_f_orb_from_a, dict(masses(c), a=(c["k"], "AU", "len")), {}, 1e-12


@call("c_0")
def _(c, o):
    return utils.c_0, {"a_i": (c["k"], "AU", "len"), "ecc_i": (c["e"], None, None)}, {}, 1e-12


@call("get_a_from_ecc")
def _(c, o):
    return utils.get_a_from_ecc, {"c_0": (c["k"], "AU", "len"), "ecc": (c["e"], None, None)}, {}, 1e-12


@call("peters_f")
def _(c, o):
    return utils.peters_f, {"e": (c["e"], None, None)}, {}, 1e-12


@call("peters_g")
def _(c, o):
    return utils.peters_g, {"e": (c["e"], None, None)}, {"n": (o["n"], None, None)}, 1e-12


@call("fn_dot")
def _(c, o):
    return utils.fn_dot, {"m_c": (c["m1"], "Msun", "mass"), "f_orb": (c["f"], "Hz", "freq"), "e": (c["e"], None, None)}, {"n": (o["n"], None, None)}, 1e-12


def angles(c, *names):
    return {n: (c[k], "rad", "ang") for n, k in (("theta", "th"), ("phi", "ph"), ("psi", "psi")) if n in names}


@call("D_plus_squared")
def _(c, o):
    return utils.D_plus_squared, angles(c, "theta", "phi"), {}, 1e-9


@call("D_cross_squared")
def _(c, o):
    return utils.D_cross_squared, angles(c, "theta", "phi"), {}, 1e-9


@call("D_plus_D_cross")
def _(c, o):
    return utils.D_plus_D_cross, angles(c, "theta", "phi"), {}, 1e-9


@call("F_plus_squared")
def _(c, o):
    return utils.F_plus_squared, angles(c, "theta", "phi", "psi"), {}, 1e-9


@call("F_cross_squared")
def _(c, o):
    return utils.F_cross_squared, angles(c, "theta", "phi", "psi"), {}, 1e-9


def sky(c):
    return {"position": (Sky(c["ph"], np.pi / 2 - c["th"]), "rad", "ang"), "polarisation": (c["psi"], "rad", "ang"), "inclination": (c["inc"], "rad", "ang")}


@call("amplitude_modulation")
def _(c, o):
    return strain.amplitude_modulation, sky(c), {}, 1e-9


def strains(fn):
    def entry(c, o):
        per = {"m_c": (c["m1"], "Msun", "mass"), "f_orb": (c["f"], "Hz", "freq"), "ecc": (c["e"], None, None), "dist": (c["d"], "kpc", "dist")}
        if o["flag"]:
            per.update(sky(c))
        return fn, per, {"n": (np.arange(1, o["n"] + 1) if o["flag2"] else o["n"], None, None)}, 1e-9
    return entry


call("h_0_n")(strains(strain.h_0_n))
call("h_c_n")(strains(strain.h_c_n))


MODELS = {"none": None, "loud": loud}


def noise_args(o, generic=True, L=True):
    kw = {}
    if o["model"] is not None:
        kw["confusion_noise"] = (MODELS.get(o["model"], o["model"]), None, None)
    if generic and o["inst"]:
        kw["instrument"] = (o["inst"], None, None)
    if L and o["L"] is not None:
        kw["L"] = (o["L"], "m", "len")
    if o["approx"]:
        kw["approximate_R"] = (True, None, None)
    if o["flag"] or not generic:
        kw["t_obs"] = (o["T"], "yr", "time")
    return kw


def freqs(c, k="fs"):
    return {"f": (c[k], "Hz", "freq")}


def noises(fn, generic):
    def entry(c, o):
        return fn, freqs(c, "fw"), noise_args(o, generic), 1e-8
    return entry


call("power_spectral_density")(noises(psd.power_spectral_density, True))
call("lisa_psd")(noises(psd.lisa_psd, False))
call("tianqin_psd")(noises(psd.tianqin_psd, False))
call("decigo_psd")(noises(psd.decigo_psd, False))


@call("load_response_function")
def _(c, o):
    # plain numbers only
    return psd.load_response_function, {"f": (c["fs"], None, None)}, {"fstar": (19.09e-3 if o["flag"] else 0.3, None, None)}, 1e-9


@call("approximate_response_function")
def _(c, o):
    return psd.approximate_response_function, {"f": (c["fs"], None, None)}, {"fstar": (19.09e-3 if o["flag"] else 0.3, None, None)}, 1e-9


@call("get_confusion_noise")
def _(c, o):
    kw = {"model": (None if o["model"] == "none" else "karnesis21" if o["model"] in (None, "loud") else o["model"], None, None)}
    if o["flag"]:
        kw["t_obs"] = (o["T"], "yr", "time")
    return psd.get_confusion_noise, freqs(c), kw, 1e-7


def confusion(fn):
    def entry(c, o):
        return fn, freqs(c), {"t_obs": (o["T"], "yr", "time")} if o["flag"] else {}, 1e-7
    return entry


call("robson19")(confusion(psd.get_confusion_noise_robson19))
call("karnesis21")(confusion(psd.get_confusion_noise_karnesis21))
call("huang20")(confusion(psd.get_confusion_noise_huang20))


@call("thiele21")
def _(c, o):
    return psd.get_confusion_noise_thiele21, freqs(c), {}, 1e-7


def orbit_args(c, o, with_masses=False, circ=False):
    b, a, f = orbits(dict(c, e=0 * c["e"]) if circ else c)
    if o["flag"] and not with_masses:
        return {"beta": (b, "m4/s", None), "a_i": (a / ref.AU, "AU", "len")}
    return dict(masses(c), **({"a_i": (a / ref.AU, "AU", "len")} if o["flag2"] else {"f_orb_i": (f, "Hz", "freq")}))


@call("get_t_merge_circ")
def _(c, o):
    return evol.get_t_merge_circ, orbit_args(c, o, circ=True), {}, 1e-11


@call("get_t_merge_ecc")
def _(c, o):
    return evol.get_t_merge_ecc, dict(orbit_args(c, o), ecc_i=(c["e"], None, None)), {"exact": (o["approx"], None, None)}, 1e-9


@call("t_merge_mandel_fit")
def _(c, o):
    return evol.t_merge_mandel_fit, {"ecc_i": (c["e"], None, None)}, {}, 1e-12


@call("evolve_f_orb_circ")
def _(c, o):
    b, a, f = orbits(dict(c, e=0 * c["e"]))
    mc = ref.chirp_mass(c["m1"], c["m2"])
    per = {"f_orb_i": (f, "Hz", "freq"), "m_c": (mc, "Msun", "mass")}
    kw = {}
    if o["flag"]:
        per["ecc_i"] = (0.1 * c["e"], None, None)
    T = (c["k"] * c["x"] * 0.9, "yr", "time")
    if o["flag2"]:
        per["t_evol"] = T
    else:
        kw["t_evol"] = (o["T"], "yr", "time")
    return evol.evolve_f_orb_circ, per, kw, 1e-7


@call("determine_stationarity")
def _(c, o):
    per = {"f_orb_i": (c["f"], "Hz", "freq"), "ecc_i": (c["e"], None, None)}
    per.update(masses(c) if o["flag"] else {"m_c": (c["m1"], "Msun", "mass")})
    return evol.determine_stationarity, per, {"t_evol": (o["T"], "yr", "time"), "stat_tol": (1e-2 if o["flag2"] else 0.1, None, None)}, None


def time_args(c, o, per, kw):
    v = o["var"] % 4
    if v == 0:
        kw.update(t_evol=(o["T"], "yr", "time"), n_step=(o["n_step"], None, None))
    elif v == 1:
        per["t_evol"] = (c["k"] * c["x"], "yr", "time")
        kw["n_step"] = (o["n_step"], None, None)
    elif v == 2:
        kw["timesteps"] = (np.linspace(0, o["T"], o["n_step"]), "yr", "time")
    else:
        per["timesteps"] = (np.linspace(0, 1, o["n_step"])[None, :] * (c["k"] * c["x"])[:, None], "yr", "time")


@call("create_timesteps_array")
def _(c, o):
    b, a, f = orbits(c)
    per, kw = {"a_i": (a / ref.AU, "AU", "len"), "beta": (b, "m4/s", None)}, {}
    if o["flag"]:
        per["ecc_i"] = (c["e"], None, None)
    time_args(c, o, per, kw)
    return evol.create_timesteps_array, per, kw, 1e-12


@call("evol_circ")
def _(c, o):
    per, kw = orbit_args(c, o, with_masses=True, circ=True), {}
    time_args(c, o, per, kw)
    kw["output_vars"] = (["timesteps", "f_orb", "a", "f_GW"][:1 + o["n"] % 4] if o["approx"] else "f_GW", None, None)
    return evol.evol_circ, per, kw, 1e-8


@call("evol_ecc")
def _(c, o):
    per, kw = dict(orbit_args(c, o, with_masses=True), ecc_i=(c["e"], None, None)), {}
    time_args(c, o, per, kw)
    kw["output_vars"] = (["ecc", "timesteps", "f_orb", "a", "f_GW"][:1 + o["n"] % 5] if o["approx"] else ["ecc", "f_orb"], None, None)
    kw["t_before"] = (0.01, "yr", "time")
    if o["n"] % 2:
        per["t_merge"] = (c["x"], "yr", "time")
    return evol.evol_ecc, per, kw, 1e-5


def snr_kw(c, o, kw):
    n = noise_args(o)
    n.pop("t_obs", None)
    kw.update(n)
    kw["t_obs"] = (o["T"], "yr", "time")
    return kw


@call("snr_circ_stationary")
def _(c, o):
    per = {"m_c": (c["m1"], "Msun", "mass"), "f_orb": (c["f"], "Hz", "freq"), "dist": (c["d"], "kpc", "dist")}
    if o["flag"]:
        per.update(sky(c))
    return snr.snr_circ_stationary, per, snr_kw(c, o, {}), 1e-7


def ret(o, kw):
    if o["var"] == 1:
        kw["ret_max_snr_harmonic"] = (True, None, None)
    elif o["var"] == 2:
        kw["ret_snr2_by_harmonic"] = (True, None, None)
    return kw


@call("snr_ecc_stationary")
def _(c, o):
    per = {"m_c": (c["m1"], "Msun", "mass"), "f_orb": (c["f"], "Hz", "freq"), "dist": (c["d"], "kpc", "dist"), "ecc": (c["e"], None, None)}
    return snr.snr_ecc_stationary, per, ret(o, snr_kw(c, o, {"harmonics_required": (o["n"], None, None)})), 1e-7


@call("snr_circ_evolving")
def _(c, o):
    b, a, f = orbits(dict(c, e=0 * c["e"]))
    per = dict(masses(c), f_orb_i=(f, "Hz", "freq"), dist=(c["d"], "kpc", "dist"))
    if o["flag2"]:
        per["t_merge"] = (c["x"], "yr", "time")
    return snr.snr_circ_evolving, per, snr_kw(c, o, {"n_step": (max(3, o["n_step"]), None, None)}), 1e-5


@call("snr_ecc_evolving")
def _(c, o):
    b, a, f = orbits(c)
    per = dict(masses(c), f_orb_i=(f, "Hz", "freq"), dist=(c["d"], "kpc", "dist"), ecc=(c["e"], None, None))
    if o["flag2"]:
        per["t_merge"] = (c["x"], "yr", "time")
    return snr.snr_ecc_evolving, per, ret(o, snr_kw(c, o, {"n_step": (max(3, o["n_step"]), None, None), "harmonics_required": (o["n"], None, None)})), 1e-4


@call("check_mass_freq_input")
def _(c, o):
    return evol.check_mass_freq_input, orbit_args(c, o), {}, 1e-12


@call("de_dt")
def _(c, o):
    b, a, f = orbits(c)
    return (lambda e, beta, c_0, times: evol.de_dt(e, times, beta, c_0)), {"e": (c["e"], None, None), "beta": (b, None, None), "c_0": (ref.c0(a, c["e"]), None, None)}, {"times": (0.0, None, None)}, 1e-12


# --- collections (need the harmonics table) -----------------------------------------------------------
COLLECTION = {}


def use_source(o, **kw):
    """construct a collection and compute something with it -> list of per-source arrays"""
    sc = {}
    if o["inst"]:
        sc["instrument"] = o["inst"]
    if o["model"] not in (None, "thiele21"):
        sc["confusion_noise"] = MODELS.get(o["model"], o["model"])
    if o["approx"]:
        sc["approximate_R"] = True
    np.random.seed(3)
    s = source.Source(interpolate_g=False, interpolate_sc=o["flag2"], sc_params=sc, **kw)
    v = o["var"]
    T = o["T"] * u.yr
    if v == 0:
        out = [s.get_snr(t_obs=T, n_step=max(3, o["n_step"])), s.snr]
    elif v == 1:
        out = [s.get_merger_time(exact=o["flag"]), s.get_source_mask(circular=True), s.m_c, s.a]
    elif v == 2:
        n = np.arange(1, o["n"] + 1)
        out = [s.get_h_0_n(n), s.get_h_c_n(n)]
    elif v == 3:
        s.evolve_sources(T)
        out = [s.f_orb, s.ecc, s.merged, s.a]
    elif v == 4:
        s.get_snr(t_obs=T, n_step=max(3, o["n_step"]))
        out = [s.max_snr_harmonic, s.snr, s.get_snr_stationary(t_obs=T)]
    else:
        new = s.evolve_sources(T, create_new_class=True)
        out = [new.f_orb, new.ecc, new.get_snr(t_obs=T, n_step=max(3, o["n_step"])), s.f_orb, s.get_snr_evolving(t_obs=T, n_step=max(3, o["n_step"]))]
    return [np.array(x) if not isinstance(x, u.Quantity) else x.copy() for x in out]


def source_call(c, o):
    b, a, f = orbits(c)
    f = np.where(c["x"] > 3e3, c["f"], f) if o["flag"] else f
    per = dict(masses(c), dist=(c["d"], "kpc", "dist"), ecc=(c["e"] if o["L"] is None else 0 * c["e"], None, None), f_orb=(f, "Hz", "freq"), weights=(c["w"], None, None))
    if o["L"] is not None and o["flag"]:
        per.update(sky(c))
    return use_source, per, {"o": (o, None, None)}, 1e-4


# --- the machine -------------------------------------------------------------------------------------
def build(spec, un=None, idx=None, scalar=None):
    """-> function, keyword arguments, tolerance. ``un``: other units; ``idx``: selection of sources; ``scalar``: one source as scalars"""
    c = {k: col(spec["rows"], k) for k in spec["rows"][0]}
    o = spec["opt"]
    if o["model"] == "thiele21":
        o = dict(o, T=4., flag=True)        # only defined for four years
    if o["model"] == "loud":
        o = dict(o, flag=True)              # has no default time
    fn, per, glob, tol = (CALLS.get(spec["name"]) or source_call)(c, o)
    kw = {}
    for k, (v, unit, kind) in list(per.items()) + list(glob.items()):
        own = k in per
        if isinstance(v, Sky):
            lon, lat = v.lon, v.lat
            if idx is not None:
                lon, lat = lon[idx], lat[idx]
            if scalar is not None:
                lon, lat = float(lon[scalar]), float(lat[scalar])
            to = u.Unit(un["ang"]) if un else u.rad
            kw[k] = SkyCoord(lon=(lon * u.rad).to(to), lat=(lat * u.rad).to(to), distance=1 * u.kpc if np.ndim(lon) == 0 else np.ones(len(lon)) * u.kpc, frame="heliocentrictrueecliptic")
            continue
        if own:
            if idx is not None:
                v = v[idx]
            if scalar is not None:
                v = v[scalar]
                v = float(v) if np.ndim(v) == 0 else v
        elif isinstance(v, np.ndarray) or isinstance(v, list):
            v = copy.deepcopy(v)
        if unit is not None:
            v = v * u.Unit(unit)
            if un is not None and kind is not None:
                v = v.to(un[kind])
        kw[k] = v
    return fn, kw, tol


def flat(out):
    """list of (array, unit string or None)"""
    out = list(out) if isinstance(out, (list, tuple)) else [out]
    res = []
    for x in out:
        if isinstance(x, u.Quantity):
            res.append((np.array(x.value), x.unit.to_string()))
        elif x is None:
            res.append((np.array(["None"]), None))
        else:
            res.append((np.array(x), None))
    return res


def identical(a, b, what):
    check(len(a) == len(b), what + ": number of results", got=len(b), want=len(a))
    for (x, ux), (y, uy) in zip(a, b):
        check(ux == uy, what + ": unit", got=uy, want=ux)
        check(x.shape == y.shape and x.dtype == y.dtype, what + ": shape or type", got=(y.shape, y.dtype), want=(x.shape, x.dtype))
        ok = np.array_equal(x, y, equal_nan=True) if x.dtype.kind == "f" else np.array_equal(x, y)
        check(ok, what + ": differs", got=y, want=x)


def similar(got, want, tol, what, ravel=False):
    check(len(got) == len(want), what + ": number of results", got=len(got), want=len(want))
    for (x, ux), (y, uy) in zip(got, want):
        check((ux is None) == (uy is None), what + ": unit lost or gained", got=ux, want=uy)
        if ux is not None and ux != uy:
            x = (x * u.Unit(ux)).to(u.Unit(uy)).value
        if ravel:
            x, y = np.ravel(x), np.ravel(y)
        if x.dtype.kind in "bUOi" or tol is None:
            check(x.shape == y.shape and np.array_equal(x, y), what, got=x, want=y)
        else:
            close(x, y, tol, 1e-9 * np.abs(y[np.isfinite(y)]).max(initial=0) if tol > 1e-10 else 0.0, what)


def freeze(kw):
    return {k: (v if isinstance(v, SkyCoord) else copy.deepcopy(v)) for k, v in kw.items()}


def unchanged(kw, old, what):
    for k, v in old.items():
        w = kw[k]
        if isinstance(v, SkyCoord):
            continue
        if isinstance(v, (np.ndarray, u.Quantity)):
            check(type(w) is type(v) and np.shape(w) == np.shape(v) and getattr(w, "unit", None) == getattr(v, "unit", None) and getattr(w, "dtype", None) == getattr(v, "dtype", None)
                  and np.array_equal(np.asarray(w), np.asarray(v)), "{}: argument {} was changed".format(what, k), got=w, want=v)
        else:
            check(type(w) is type(v) and w == v, "{}: argument {} was changed".format(what, k), got=w, want=v)


def sky_state(kw):
    return {k: (np.array(v.spherical.lon.rad), np.array(v.spherical.lat.rad), v.frame.name) for k, v in kw.items() if isinstance(v, SkyCoord)}


def world():
    r = np.random.get_state()
    lg = legwork.logger
    return (r[0], r[1].tobytes(), r[2:], tuple(sorted(np.geterr().items())), lg.level, tuple(map(id, lg.handlers)), lg.propagate, os.getcwd(),
            str(np.get_printoptions()), tuple(sorted(os.environ)))


def run(spec, **kw):
    fn, args, tol = build(spec, **kw)
    with quiet():
        return flat(fn(**args))


NAMES = sorted(set(["chirp_mass"]) | set(CALLS))
HEAVY = ["evol_ecc", "evol_circ", "snr_ecc_evolving", "snr_circ_evolving", "snr_ecc_stationary", "snr_circ_stationary", "power_spectral_density", "h_0_n", "h_c_n", "get_t_merge_ecc", "create_timesteps_array",
         "evolve_f_orb_circ", "determine_stationarity", "get_confusion_noise", "decigo_psd", "tianqin_psd", "lisa_psd", "huang20", "robson19", "karnesis21"]
NAME = st.one_of(st.sampled_from(NAMES), st.sampled_from(HEAVY))


def _protect(x):
    x = x.copy()
    x.setflags(write=False)
    return x


def _strided(x):
    big = np.zeros(tuple(2 * k for k in x.shape), x.dtype)
    view = big[tuple(slice(None, None, 2) for _ in x.shape)]
    view[...] = x
    return view


LAYOUT = {"write-protected": _protect, "strided": _strided, "Fortran-ordered": lambda x: np.array(x, order="F"),
          "backward": lambda x: x[tuple(slice(None, None, -1) for _ in x.shape)].copy()[tuple(slice(None, None, -1) for _ in x.shape)]}


def laid_out(x, how):
    if isinstance(x, SkyCoord) or not isinstance(x, np.ndarray) or not np.ndim(x) or type(x) not in (np.ndarray, u.Quantity):
        return x
    if isinstance(x, u.Quantity):
        return u.Quantity(how(x.value), x.unit, copy=False)
    return how(x)


def relations(case, rec):
    spec, rows_, un = case["spec"], case["spec"]["rows"], case["units"]
    name = spec["name"]
    n = len(rows_)
    rec.label(name)
    rec.nontrivial(n >= 2)
    fn, kw, tol = build(spec)
    old, sky0, w0 = freeze(kw), sky_state(kw), world()
    with quiet():
        out = fn(**kw)
    first = flat(out)
    if name != "Source":
        check(world() == w0, name + ": global state (random numbers, error handling, logger, directory) was changed")
    unchanged(kw, old, name)
    for k, (lon, lat, frame) in sky_state(kw).items():
        check(np.array_equal(lon, sky0[k][0]) and np.array_equal(lat, sky0[k][1]) and frame == sky0[k][2], "{}: argument {} was changed".format(name, k))
    # the same objects again
    with quiet():
        again = fn(**kw)
    identical(first, flat(again), name + " repeated with the same objects")
    # writing into a result must not reach the arguments or the next result
    for x in (out if isinstance(out, (list, tuple)) else [out]):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fi" and x.ndim:
            if isinstance(x, u.Quantity):
                x[...] = -17 * x.unit
            else:
                x[...] = -17
    if name not in ("check_mass_freq_input", "create_timesteps_array"):         # hand back what they were given
        unchanged(kw, old, name + " after writing into its result")
        identical(first, flat(again), name + ": an earlier result was changed")
        with quiet():
            identical(first, flat(fn(**kw)), name + " repeated after writing into its result")
    identical(first, run(spec), name + " repeated with new objects")
    if name == "determine_stationarity":
        # knife-edge members flip with rounding
        c = {k: col(rows_, k) for k in rows_[0]}
        mc = ref.chirp_mass(c["m1"], c["m2"]) if spec["opt"]["flag"] else c["m1"]
        K = 48. / (5 * np.pi) * (ref.G * mc * ref.MSUN)**(5. / 3) / ref.C**5 * (2 * np.pi)**(11. / 3) * ref.peters_f(c["e"])
        s = 1e-2 if spec["opt"]["flag2"] else 0.1
        tc = c["f"]**(-8. / 3) / (8. / 3 * K)
        if (np.abs(spec["opt"]["T"] * ref.YR / ((1 - (1 + s)**(-8. / 3)) * tc) - 1) < 1e-6).any():
            return
    # other units
    if name not in ("load_response_function", "approximate_response_function"):
        try:
            similar(run(spec, un=un), first, tol, name + " in other units")
        except Violation:
            if not rounding_edge(spec):
                raise
    eps = 1e-12 if tol is not None and tol <= 1e-7 else (1e-7 if tol is not None else None)
    # the same values laid out differently in memory, or write-protected
    fn, kw, _ = build(spec)
    how = sorted(LAYOUT)[case["perm"] // 4 % len(LAYOUT)]
    kw = {k: laid_out(v, LAYOUT[how]) for k, v in kw.items()}
    rec.label("arguments " + how)
    with quiet():
        similar(flat(fn(**kw)), first, eps, "{} for {} arguments".format(name, how))
    # another order of the sources
    perm = np.random.RandomState(case["perm"]).permutation(n)
    got = run(spec, idx=perm)
    axis0 = [x.ndim and x.shape[0] == n for x, _ in first]
    if all(axis0):
        similar(got, [(x[perm], un_) for x, un_ in first], eps, name + " for permuted sources")
        # part of the sources
        k = max(1, n - 1 - case["perm"] % 2)
        sel = perm[:k]
        similar(run(spec, idx=sel), [(x[sel], un_) for x, un_ in first], eps, name + " for part of the sources", ravel=True)
        # a large population of copies
        if case["perm"] % 4 == 1:
            slow = name in ("evol_ecc", "snr_ecc_evolving", "Source", "get_t_merge_ecc", "snr_circ_evolving")
            sel = np.tile(np.arange(n), (130 if slow and case["perm"] % 16 != 1 else 1100) // n + 1)
            rec.label("large population")
            similar(run(spec, idx=sel), [(x[sel], un_) for x, un_ in first], eps, name + " for a large population", ravel=True)
        # alone
        i = case["perm"] % n
        similar(run(spec, idx=np.array([i])), [(x[i:i + 1], un_) for x, un_ in first], eps, name + " for a single source", ravel=True)
        if name not in ("Source", "peters_g", "check_mass_freq_input", "create_timesteps_array"):
            similar(run(spec, scalar=i), [(x[i:i + 1], un_) for x, un_ in first], eps, name + " for a source given as scalars", ravel=True)
    elif n > 1 and name not in ("peters_g",):
        check(False, name + ": the first axis of the result is not the sources", got=[x.shape for x, _ in first], want=n)


def rounding_edge(spec):
    """a change in the last digit may change a documented choice between alternatives"""
    c = {k: col(spec["rows"], k) for k in spec["rows"][0]}
    o = spec["opt"]
    edges = np.array([1e-7, 2., 1e-3, 100., 1e-4, 1.])
    f = np.concatenate([c["fs"], c["fw"], c["f"] * 2] + [c["f"] * k for k in range(1, o["n"] + 1)])
    return bool((np.abs(f[:, None] / edges - 1) < 1e-9).any() or (np.abs(c["e"] - 0.15) < 1e-9).any() or (np.abs(c["x"] / o["T"] - 1) < 1e-6).any())


SPEC = st.fixed_dictionaries({"name": NAME, "rows": structured(st.lists(ROW, min_size=1, max_size=5)), "opt": OPT})


@facet(P, "functions", st.fixed_dictionaries({"spec": SPEC, "units": UNIT, "perm": st.integers(0, 999)}), 1600, 30000,
       "a random call of one of {} public functions: arguments and global state unchanged, repeats bit-identical (same and new objects, also after writing into results), other units, permuted, part of the "
       "sources, a large population of copies, single arrays and scalars; non-trivial: >= 2 sources".format(len(NAMES)), shards=4)
def functions(case, rec):
    relations(case, rec)


@facet(P, "collections", st.fixed_dictionaries({"spec": st.fixed_dictionaries({"name": st.just("Source"), "rows": structured(st.lists(ROW, min_size=1, max_size=4)), "opt": OPT}), "units": UNIT, "perm": st.integers(0, 999)}), 120, 3000,
       "the same relations for a collection constructed and used in one of six ways; non-trivial: >= 2 sources", data=("harmonics",), shards=3, thorough_shards=4)
def collections(case, rec):
    c = {k: col(case["spec"]["rows"], k) for k in case["spec"]["rows"][0]}
    if (np.abs(c["e"][:, None] - np.array([0.15])) < 1e-6).any():
        return
    rec.label("use {}".format(case["spec"]["opt"]["var"]))
    relations(case, rec)


# --- histories against a pristine process -------------------------------------------------------------
class Zygote:
    """a process forked before anything was computed; it forks a child for every request, so each answer comes from pristine state"""

    def __init__(self):
        self.rd, wr = os.pipe()
        rd, self.wr = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.rd)
                os.close(self.wr)
                serve(rd, wr)
            finally:
                os._exit(0)
        os.close(rd)
        os.close(wr)

    def ask(self, spec):
        send(self.wr, spec)
        kind, res = recv(self.rd)
        return kind, res


def send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            part = os.read(fd, n - len(out))
            if not part:
                raise EOFError
            out += part
        return out
    return pickle.loads(get(struct.unpack("<Q", get(8))[0]))


def serve(rd, wr):
    import signal
    signal.alarm(0)
    while True:
        try:
            spec = recv(rd)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                send(wr, outcome(spec))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


def outcome(spec):
    try:
        return "ok", run(spec)
    except Exception as e:
        return "error", (type(e).__name__, str(e))


_Z = []


def history(case, rec):
    if not _Z:
        _Z.append(Zygote())
    calls = case["calls"]
    seq = [i % len(calls) for i in case["seq"]]
    rec.nontrivial(len(set(seq)) >= 2)
    rec.label(*[c["name"] for c in calls])
    pristine = {}
    for step, i in enumerate(seq):
        got = outcome(calls[i])
        if i not in pristine:
            pristine[i] = _Z[0].ask(calls[i])
        kind, want = pristine[i]
        what = "call {} ({}) of the history".format(step, calls[i]["name"])
        check(got[0] == kind, what + " against a pristine process", got=got, want=(kind, want))
        if kind == "ok":
            identical(want, got[1], what + " against a pristine process")
        else:
            check(got[1] == want, what + ": another error than in a pristine process", got=got[1], want=want)


@st.composite
def related(draw, name, max_rows):
    """calls that share some of their arguments, so that anything remembered from one can mislead another"""
    base = draw(st.fixed_dictionaries({"name": name, "rows": structured(st.lists(ROW, min_size=1, max_size=max_rows)), "opt": OPT}))
    out = [base]
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["opt", "rows", "row", "row", "order", "name", "name", "all", "one"]))
        new = copy.deepcopy(draw(st.sampled_from(out)))
        if k == "opt":
            new["opt"] = draw(OPT)
        elif k == "one":
            key = draw(st.sampled_from(sorted(new["opt"])))
            new["opt"][key] = draw(OPT)[key]
        elif k == "rows":
            new["rows"] = draw(st.lists(ROW, min_size=len(new["rows"]), max_size=len(new["rows"])))
        elif k == "row":
            key, i = draw(st.sampled_from(sorted(new["rows"][0]))), draw(st.integers(0, len(new["rows"]) - 1))
            new["rows"][i][key] = draw(ROW)[key]
        elif k == "order":
            new["rows"] = draw(st.permutations(new["rows"]))
        elif k == "name":
            new["name"] = draw(name)
        else:
            new = draw(st.fixed_dictionaries({"name": name, "rows": structured(st.lists(ROW, min_size=1, max_size=max_rows)), "opt": OPT}))
        out.append(new)
    return out


SEQ = st.lists(st.integers(0, 4), min_size=3, max_size=10)


@facet(P, "history", st.fixed_dictionaries({"calls": related(NAME, 3), "seq": SEQ}), 700, 10000,
       "random histories of calls of the public functions that share some arguments, with repetitions: every result is bit-identical to that of a pristine process; non-trivial: >= 2 different calls", shards=4)
def history_functions(case, rec):
    history(case, rec)


@facet(P, "history_collections", st.fixed_dictionaries({"calls": related(st.just("Source"), 3), "seq": SEQ}), 60, 1500,
       "the same for collections constructed and used in different ways; non-trivial: >= 2 different calls", data=("harmonics",), shards=3, thorough_shards=4)
def history_collections(case, rec):
    history(case, rec)
