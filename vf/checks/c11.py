"""C11 Galactic confusion noise"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import close, logf, q, raises, same, unit, units, val
from legwork import psd

P = "C11"
FREQ = st.one_of(logf(1e-5, 2.), logf(1., 1e3), logf(1e-4, 1e-2), st.sampled_from([1e-4, 1.0, 0.9999e-4, 1.0001, 1e-3, 3e-3]))
TAB = {"robson19": [0.5, 1, 2, 4], "huang20": [0.5, 1, 2, 4, 5]}
T = st.one_of(st.sampled_from([0.5, 1., 2., 4., 5., 10.]), st.floats(0.05, 12.), logf(1e-3, 100.),
              st.sampled_from([0.7499, 0.7501, 1.499, 1.501, 2.999, 3.001, 4.499, 4.501]))
FN = {"robson19": psd.get_confusion_noise_robson19, "huang20": psd.get_confusion_noise_huang20,
      "karnesis21": psd.get_confusion_noise_karnesis21, "thiele21": psd.get_confusion_noise_thiele21}
DEFAULT = {"robson19": 4., "huang20": 5., "karnesis21": 4., "thiele21": 4.}


@facet(P, "models", st.fixed_dictionaries({
    "f": st.lists(FREQ, min_size=1, max_size=12), "T": st.one_of(st.none(), T), "model": st.sampled_from(sorted(FN)),
    "units": units("freq", "time"), "shape": st.sampled_from(["1d", "1d", "2d", "scalar"]),
    "via": st.sampled_from(["generic", "direct", "auto"])}), 600, 12000,
    "random model, frequencies and mission length (incl. next to the switching points); non-trivial: in the fit's "
    "range with a non-default mission length")
def models(case, rec):
    m, via = case["model"], case["via"]
    f = np.array(case["f"])
    if case["shape"] == "scalar":
        f = f[0]
    elif case["shape"] == "2d":
        f = np.array([f, 2 * f])
    fq = q(f, "Hz", case["units"]["freq"])
    before = fq.copy()
    f = fq.to(u.Hz).value
    T = None if m == "thiele21" else case["T"]
    t_yr = DEFAULT[m] if T is None else T
    if m in TAB:
        d = np.sort(np.abs(np.array(TAB[m]) - t_yr))
        if d[1] - d[0] < 1e-9:
            return          # exactly between two tabulated lengths: either is the closest
    rec.nontrivial(T is not None and T != DEFAULT[m])
    rec.label(m, via, "scalar" if case["shape"] == "scalar" else "array")
    kw = {} if T is None else {"t_obs": q(T, "yr", case["units"]["time"])}
    if via == "direct":
        got = FN[m](fq, **kw)
    else:
        if via == "auto" and T is None:
            kw["t_obs"] = "auto"
        got = psd.get_confusion_noise(f=fq, model=m, **kw)
    same(fq, before, "frequencies given by the user")
    got = val(got, "1/Hz", "confusion noise")
    want = ref.confusion(m, f, t_yr)
    check(np.shape(got) == np.shape(f), "shape", got=np.shape(got), want=np.shape(f))
    got, want, f = np.atleast_1d(got), np.atleast_1d(want), np.atleast_1d(f)
    keep = np.ones_like(f, bool)
    if m == "huang20" and fq.unit != u.Hz:
        keep = ~((np.abs(f / 1e-4 - 1) < 1e-12) | (np.abs(f - 1) < 1e-12))
    check(np.all(got >= 0) and np.all(np.isfinite(got)), "confusion noise negative or not finite", got=got)
    if m == "huang20":
        out = keep & ((f < 1e-4) | (f > 1.0))
        check(np.all(got[out] == 0), "TianQin fit not zero outside [1e-4, 1] Hz", f=f[out], got=got[out])
    close(got[keep], want[keep], 1e-7, 1e-52, "{} confusion noise for {} yr".format(m, t_yr))


@facet(P, "rest", st.fixed_dictionaries({
    "f": st.lists(FREQ, min_size=1, max_size=6), "T": T, "tunit": unit("time"), "scalar": st.booleans(),
    "bad": st.one_of(st.text(max_size=8), st.sampled_from(["robson", "Karnesis21", "huang21", "", "none"]))}), 200, 2500,
    "no noise, the 4-year-only model, unknown models; non-trivial: mission length differs from 4 yr")
def rest(case, rec):
    f = np.array(case["f"]) * u.Hz
    f = f[0] if case["scalar"] else f
    t = q(case["T"], "yr", case["tunit"])
    zero = val(psd.get_confusion_noise(f=f, model=None, t_obs=t), "1/Hz", "no confusion noise")
    check(np.all(np.asarray(zero) == 0) and np.shape(zero) == np.shape(f), "model None must be zero everywhere", got=zero)
    if case["bad"] not in FN:
        raises(ValueError, lambda: psd.get_confusion_noise(f=f, model=case["bad"], t_obs=t), "model " + repr(case["bad"]))
    if abs(case["T"] - 4) > 1e-9:
        rec.nontrivial()
        raises(ValueError, lambda: psd.get_confusion_noise(f=f, model="thiele21", t_obs=t),
               "thiele21 for a mission of {} yr".format(case["T"]))
        raises(ValueError, lambda: psd.lisa_psd(np.atleast_1d(f), t_obs=t, confusion_noise="thiele21"), "LISA noise with thiele21")
    want = ref.conf_thiele21(f.value)
    for t4 in (4 * u.yr, "auto"):
        close(val(psd.get_confusion_noise(f=f, model="thiele21", t_obs=t4), "1/Hz"), want, 1e-7, 1e-60, "thiele21")


LENGTHS = [0.3, 0.5, 0.7499, 0.7501, 1., 1.4999, 1.5001, 2., 2.9999, 3.0001, 4., 4.4999, 4.5001, 5., 8.]


@facet(P, "every_length", st.fixed_dictionaries({"lo": logf(1e-5, 1e-4), "step": st.floats(1.05, 1.5), "tunit": unit("time")}), 25, 400,
       "every model for mission lengths at and on both sides of every switching point, on a random geometric grid of 40 frequencies; all non-trivial")
def every_length(case, rec):
    rec.nontrivial()
    f = case["lo"] * case["step"]**np.arange(40)
    f = f[(np.abs(f / 1e-4 - 1) > 1e-12) & (np.abs(f - 1) > 1e-12)]
    for m in sorted(FN):
        for T in LENGTHS if m != "thiele21" else [4.]:
            kw = {} if m == "thiele21" else {"t_obs": q(T, "yr", case["tunit"])}
            got = val(psd.get_confusion_noise(f=f * u.Hz, model=m, **kw), "1/Hz")
            close(got, ref.confusion(m, f, T), 1e-7, 1e-52, "{} confusion noise for {} yr".format(m, T))
