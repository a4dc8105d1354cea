"""C10 instrument noise curves"""
import os

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check, overlay_dir
from ..gen import close, logf, q, quiet, raises, same, unit, units, val
from legwork import psd

P = "C10"
FREQ = st.one_of(logf(1e-8, 300.), logf(1e-7, 2.0), logf(1e-4, 0.1),
                 st.sampled_from([1e-7, 2.0, 1e-3, 100., 1e-4, 1.0, 0.99e-7, 2.0000001, 0.999e-3, 100.001, 19.09e-3]))
FS = st.lists(FREQ, min_size=1, max_size=12)
T = st.one_of(st.sampled_from([0.5, 1., 2., 4., 5., 10.]), st.floats(0.1, 12.))
MODEL = st.sampled_from(["robson19", "huang20", "karnesis21", "thiele21", None, "auto", "custom"])
BASE = {"f": FS, "T": st.one_of(st.none(), T), "model": MODEL, "units": units("freq", "time"),
        "shape": st.sampled_from(["1d", "1d", "2d", "scalar"])}


def noise(f, t_obs):
    """a custom confusion noise that works with and without frequency units"""
    f = f.to(u.Hz).value if isinstance(f, u.Quantity) else np.asarray(f)
    return (3e-40 * t_obs.to(u.yr).value / (1 + (f / 1e-3)**2)) / u.Hz


def cn_ref(f, t_yr):
    return 3e-40 * t_yr / (1 + (f / 1e-3)**2)


def freqs(case):
    f = np.array(case["f"])
    if case["shape"] == "scalar":
        f = f[0]
    elif case["shape"] == "2d":
        f = np.array([f, f[::-1]])
    fq = q(f, "Hz", case["units"]["freq"])
    return fq.to(u.Hz).value, fq


def edge(f, lo, hi):
    """band edges may flip when the frequency went through a unit conversion"""
    return (np.abs(f / lo - 1) < 1e-12) | (np.abs(f / hi - 1) < 1e-12)


def judge(got, want, f, lo, hi, what, exact_units):
    got = val(got, "1/Hz", what)
    check(np.shape(got) == np.shape(f), what + ": shape", got=np.shape(got), want=np.shape(f))
    got, want, f = np.atleast_1d(got).ravel(), np.atleast_1d(want).ravel(), np.atleast_1d(f).ravel()
    keep = np.ones_like(f, dtype=bool) if exact_units else ~edge(f, lo, hi)
    check(np.all(got[keep] > 0), what + ": noise is not positive", f=f[keep][~(got[keep] > 0)])
    known = keep & ~np.isnan(want)
    close(got[known], want[known], 1e-6, what=what)
    check(not np.isnan(got).any(), what + ": NaN")


def model_kw(case, tq):
    m, kw = case["model"], {}
    if m == "custom":
        kw["confusion_noise"] = noise
    elif m != "auto":
        kw["confusion_noise"] = m
    if case["T"] is not None:
        kw["t_obs"] = tq
    return kw


def prepare(case, default_t):
    T = case["T"]
    if case["model"] == "thiele21":
        T = case["T"] = None if T is None else 4.0
        if default_t != 4.0:
            T = case["T"] = 4.0
    tq = None if T is None else (q(T, "yr", case["units"]["time"]) if case["model"] != "thiele21" else T * u.yr)
    return (default_t if T is None else T), tq


def ref_model(case):
    m = case["model"]
    return (m if m not in ("custom",) else None), (cn_ref if m == "custom" else None)


@facet(P, "lisa", st.fixed_dictionaries(dict(BASE, L=st.one_of(st.none(), logf(1e8, 1e11), logf(1e9, 5e9)), approx=st.booleans(),
                                             via=st.sampled_from(["direct", "generic", "default"]))),
       350, 7000, "random frequencies (in, out and on the band edges), arm and mission lengths, response options and "
       "confusion models; non-trivial: in-band frequency with a non-default parameter")
def lisa(case, rec):
    t_yr, tq = prepare(case, 4.0)
    f, fq = freqs(case)
    kw = model_kw(case, tq)
    L = 2.5e9 if case["L"] is None else case["L"]
    if case["L"] is not None:
        kw["L"] = (L * u.m).to(u.km)
    if case["approx"]:
        kw["approximate_R"] = True
    band = (np.atleast_1d(f) >= 1e-7) & (np.atleast_1d(f) <= 2)
    rec.nontrivial(bool(band.any() and (kw or case["model"] != "auto")))
    rec.label("model:{}".format(case["model"]), case["via"], "approx" if case["approx"] else "table")
    m, cn = ref_model(case)
    if case["via"] == "direct":
        m = "karnesis21" if m == "auto" else m
        got = psd.lisa_psd(fq, **kw)
    else:
        if case["via"] == "generic":
            kw["instrument"] = "LISA"
        got = psd.power_spectral_density(fq, **kw)
    want = ref.psd(f, "LISA", t_yr, L, case["approx"], m, overlay_dir(), cn)
    judge(got, want, f, 1e-7, 2.0, "LISA noise", fq.unit == u.Hz)


@facet(P, "tianqin", st.fixed_dictionaries(dict(BASE, L=st.one_of(st.none(), logf(1e7, 1e10)), generic=st.booleans())), 250, 5000,
       "as lisa, for TianQin; non-trivial: a non-default parameter")
def tianqin(case, rec):
    t_yr, tq = prepare(case, 5.0)
    f, fq = freqs(case)
    kw = model_kw(case, tq)
    if case["L"] is not None:
        kw["L"] = (case["L"] * u.m).to(u.km)
    rec.nontrivial(bool(kw))
    rec.label("model:{}".format(case["model"]))
    m, cn = ref_model(case)
    before = fq.copy()
    got = psd.power_spectral_density(fq, instrument="TianQin", **kw) if case["generic"] else psd.tianqin_psd(fq, **kw)
    same(fq, before, "frequencies given by the user")
    want = ref.psd(f, "TianQin", t_yr, case["L"], False, m, None, cn)
    # the TianQin confusion fit is cut at 1e-4 and 1 Hz
    judge(got, want, f, 1e-4, 1.0, "TianQin noise", fq.unit == u.Hz)


@facet(P, "decigo", st.fixed_dictionaries(dict(BASE, generic=st.booleans(), band=st.one_of(
    st.none(), st.tuples(logf(1e-6, 1e-2), logf(1., 1e3))))), 250, 5000,
    "as lisa, for DECIGO with default and custom bands; non-trivial: some in-band frequency")
def decigo(case, rec):
    t_yr, tq = prepare(case, 4.0)
    f, fq = freqs(case)
    kw = model_kw(case, tq)
    lo, hi = 1e-3, 1e2
    if case["band"] is not None and not case["generic"]:
        lo, hi = case["band"]
        kw.update(f_low=q(lo, "Hz", case["units"]["freq"]), f_high=q(hi, "Hz", case["units"]["freq"]))
    rec.nontrivial(bool(((f >= lo) & (f <= hi)).any()))
    rec.label("model:{}".format(case["model"]))
    m, cn = ref_model(case)
    got = psd.power_spectral_density(fq, instrument="DECIGO", **kw) if case["generic"] else psd.decigo_psd(fq, **kw)
    want = ref.psd_decigo(f, t_yr, "karnesis21" if m == "auto" else m, cn, lo, hi)
    judge(got, want, f, lo, hi, "DECIGO noise", fq.unit == u.Hz)


@facet(P, "custom", st.fixed_dictionaries({
    "f": FS, "T": st.one_of(st.none(), T), "L": st.one_of(st.none(), logf(1e8, 1e10)), "approx": st.sampled_from([None, True, False]),
    "model": st.one_of(st.none(), MODEL), "bad": st.text(max_size=8)}), 120, 2000,
    "a custom noise function receives exactly the arguments given and its result is returned unchanged; unknown "
    "instruments are rejected; non-trivial: some argument given")
def custom(case, rec):
    calls = []
    token = np.array(case["f"]) * 7.0 / u.Hz

    def mine(f, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto"):
        calls.append((f, t_obs, L, approximate_R, confusion_noise))
        return token
    f = np.array(case["f"]) * u.Hz
    kw = {}
    if case["T"] is not None:
        kw["t_obs"] = case["T"] * u.yr
    if case["L"] is not None:
        kw["L"] = case["L"] * u.m
    if case["approx"] is not None:
        kw["approximate_R"] = case["approx"]
    if case["model"] is not None:
        kw["confusion_noise"] = noise if case["model"] == "custom" else case["model"]
    rec.nontrivial(bool(kw))
    got = psd.power_spectral_density(f, instrument="custom", custom_psd=mine, **kw)
    same(got, np.array(case["f"]) * 7.0 / u.Hz, "custom noise returned unchanged")
    check(len(calls) == 1, "custom noise function called {} times".format(len(calls)))
    same(calls[0][0], f, "frequencies passed to the custom function")
    for name, g, d in zip(("t_obs", "L", "approximate_R", "confusion_noise"), calls[0][1:], ("auto", "auto", False, "auto")):
        w = kw.get(name, d)
        ok = (g is w) or (isinstance(g, type(w)) and np.all(g == w))
        check(ok, "{} not passed on to the custom function".format(name), got=g, want=w)
    # a custom function supplied with another instrument is not used
    n = len(calls)
    psd.power_spectral_density(f, instrument="LISA", custom_psd=mine)
    check(len(calls) == n, "custom function used for LISA")
    if case["bad"] not in ("LISA", "TianQin", "DECIGO", "custom"):
        raises(ValueError, lambda: psd.power_spectral_density(f, instrument=case["bad"]), "instrument " + repr(case["bad"]))


@facet(P, "response", st.fixed_dictionaries({"x": st.lists(logf(1e-5, 100.), min_size=1, max_size=10), "fstar": logf(1e-4, 10.)}),
       150, 2500, "response functions at random frequencies and transfer frequencies; all non-trivial")
def response(case, rec):
    rec.nontrivial()
    x, fs = np.array(case["x"]), case["fstar"]
    f = x * fs
    close(psd.approximate_response_function(f, fs), 0.3 / (1 + 0.6 * x**2), 1e-12, what="approximate response")
    want, lo, hi = ref.response(f, fs, overlay_dir())
    got = np.asarray(psd.load_response_function(f, fs))
    ok = f <= hi * (1 - 1e-9)
    close(got[ok], want[ok], 1e-6, what="tabulated response")
    check(np.all(got > 0), "response is not positive", got=got)
    low = x < 0.02
    close(got[low], np.full(low.sum(), 0.3), 2e-3, what="low frequency limit of the response")


@facet(P, "no_table", st.fixed_dictionaries({"f": st.lists(logf(1e-7, 2.0), min_size=1, max_size=6), "L": logf(1e8, 1e10),
                                             "model": st.sampled_from(["karnesis21", None, "robson19"])}), 40, 400,
       "injected fault: R.npy is absent; the analytic response must be used; all non-trivial", exclude=("R.npy",))
def no_table(case, rec):
    rec.nontrivial()
    check(not os.path.exists(os.path.join(overlay_dir(), "legwork", "R.npy")), "harness: the table should be absent")
    f = np.array(case["f"])
    fs = ref.C / (2 * np.pi * case["L"])
    with quiet():
        close(np.asarray(psd.load_response_function(f, fs)), ref.response_approx(f, fs), 1e-9, what="fallback response")
        got = psd.lisa_psd(f * u.Hz, L=case["L"] * u.m, confusion_noise=case["model"])
    close(val(got, "1/Hz"), ref.psd_lisa(f, 4.0, case["L"], True, case["model"]), 1e-9, what="noise without the table")
