"""C12 stationary signal-to-noise ratios"""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check, overlay_dir
from ..gen import any_dist, any_mass, close, col, counts, ecc, logf, q, rows, units
from legwork import snr

P = "C12"
ROW = {"m1": any_mass, "m2": any_mass, "f": st.one_of(logf(1e-5, 0.3), logf(1e-7, 3.)), "e": ecc(0.95), "d": any_dist,
       "th": st.floats(0.01, np.pi - 0.01), "ph": st.floats(0, 2 * np.pi), "psi": st.floats(0, np.pi), "inc": st.floats(0, np.pi)}
NOISE = st.fixed_dictionaries({
    "instrument": st.sampled_from(["LISA", "LISA", "default", "TianQin", "DECIGO", "custom", "interp"]),
    "model": st.sampled_from(["auto", None, "robson19", "karnesis21", "huang20", "loud"]), "approx": st.booleans(),
    "L": st.one_of(st.none(), logf(1e9, 2.5e9))})
BASE = {"rows": rows(ROW, max_size=5), "noise": NOISE, "T": st.one_of(st.sampled_from([0.5, 1., 4., 5.]), st.floats(0.1, 10.)),
        "units": units("mass", "freq", "dist", "time")}


def fake_sc(f):
    f = f.to(u.Hz).value if isinstance(f, u.Quantity) else np.asarray(f)
    return np.where((f < 1e-5) | (f > 0.5), np.inf, 1e-41 * (1 + (1e-3 / f)**4 + (f / 1e-2)**2)) / u.Hz


def loud(f, t_obs=4 * u.yr):
    """a confusion noise which matters at every frequency"""
    return loud_ref(f.to(u.Hz).value if isinstance(f, u.Quantity) else np.asarray(f), t_obs.to(u.yr).value) / u.Hz


def loud_ref(f, t_yr):
    return 1e-38 * (1 + t_yr) / (1 + (f / 1e-2)**2)


def noise(case):
    """-> keyword arguments for LEGWORK, reference noise function of f [Hz]"""
    n, T = case["noise"], case["T"]
    inst = n["instrument"]
    if inst == "interp":
        return {"interpolated_sc": fake_sc}, lambda f: fake_sc(f).value
    if inst == "custom":
        def mine(f, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto"):
            return fake_sc(f) * (t_obs.to(u.yr).value + 0.5)
        return dict(instrument="custom", custom_psd=mine), lambda f: fake_sc(f).value * (T + 0.5)
    kw = {} if inst == "default" else {"instrument": inst}
    inst = "LISA" if inst == "default" else inst
    if n["model"] != "auto":
        kw["confusion_noise"] = loud if n["model"] == "loud" else n["model"]
    if n["approx"]:
        kw["approximate_R"] = True
    L = None
    if n["L"] is not None:
        kw["L"] = n["L"] * u.m
        L = n["L"]
    model = n["model"]
    if model == "loud":
        return kw, lambda f: ref.psd(f, inst, T, L, n["approx"], None, overlay_dir(), cn=loud_ref)
    return kw, lambda f: ref.psd(f, inst, T, L, n["approx"], model, overlay_dir())


def flip_risk(f, case):
    """a harmonic so close to a band edge that rounding decides"""
    near = np.zeros(f.shape, bool)
    for x in (1e-7, 2.0, 1e-3, 100., 1e-4, 1.0, 1e-5, 0.5):
        near |= np.abs(f / x - 1) < 1e-9
    return near.any()


def base(case, scalar=False):
    r, un = case["rows"], case["units"]
    if scalar:
        r = r[:1]
    mc, f, e, d = ref.chirp_mass(col(r, "m1"), col(r, "m2")), col(r, "f"), col(r, "e"), col(r, "d")
    kw = dict(m_c=q(mc, "Msun", un["mass"]), f_orb=q(f, "Hz", un["freq"]), dist=q(d, "kpc", un["dist"]),
              t_obs=q(case["T"], "yr", un["time"]))
    if scalar:
        kw = {k: (v[0] if np.ndim(v) else v) for k, v in kw.items()}
    return r, mc, f, e, d, kw


@facet(P, "circular", st.fixed_dictionaries(dict(BASE, sky=st.booleans(), scalar=st.booleans())), 250, 5000,
       "random circular sources, instruments, noise options, sky positions; non-trivial: some non-zero SNR")
def circular(case, rec):
    r, mc, f, e, d, kw = base(case, case["scalar"])
    nk, S = noise(case)
    if flip_risk(2 * f, case):
        return
    with np.errstate(all="ignore"):
        want = np.sqrt(ref.h0(mc * ref.MSUN, f, 0 * f, [2], d * ref.KPC)[:, 0]**2 * case["T"] * ref.YR / S(2 * f))
    if case["sky"]:
        lat, lon, psi, inc = np.pi / 2 - col(r, "th"), col(r, "ph"), col(r, "psi"), col(r, "inc")
        want = want * np.sqrt(ref.amp_mod(lat, lon, psi, inc))
        if case["scalar"]:
            lat, lon, psi, inc = lat[0], lon[0], psi[0], inc[0]
        kw.update(position=SkyCoord(lat=lat * u.rad, lon=lon * u.rad, frame="barycentrictrueecliptic"), polarisation=psi * u.rad,
                  inclination=(inc * u.rad).to(u.deg))
    rec.nontrivial(bool((want > 0).any()))
    rec.label(case["noise"]["instrument"], "sky" if case["sky"] else "averaged")
    got = snr.snr_circ_stationary(**kw, **nk)
    close(got, want, 1e-6, 1e-12 * want.max(initial=0), "circular stationary SNR")


@facet(P, "eccentric", st.fixed_dictionaries(dict(BASE, n=counts(1, 40, 100, 101, 300, 1000, 1001, 2500), scalar=st.booleans(),
                                                  out=st.sampled_from(["snr", "max", "each"]))), 250, 5000,
       "random sources (incl. e=0), harmonic counts and output options; non-trivial: non-zero SNR in >= 2 harmonics")
def eccentric(case, rec):
    r, mc, f, e, d, kw = base(case, case["scalar"])
    nk, S = noise(case)
    n = np.arange(1, case["n"] + 1)
    fn = n[None, :] * f[:, None]
    if flip_risk(fn, case):
        return
    with np.errstate(all="ignore"):
        want = ref.h0(mc * ref.MSUN, f, e, n, d * ref.KPC)**2 * case["T"] * ref.YR / S(fn)
    tot = np.sqrt(want.sum(axis=1))
    rec.nontrivial(bool(((want > 0).sum(axis=1) >= 2).any()))
    rec.label(case["noise"]["instrument"], case["out"])
    kw.update(ecc=float(e[0]) if case["scalar"] else e, harmonics_required=case["n"], **nk)
    atol = 1e-11 * tot.max(initial=0)
    if case["out"] == "each":
        got = snr.snr_ecc_stationary(ret_snr2_by_harmonic=True, **kw)
        check(got.shape == want.shape, "SNR^2 by harmonic: shape", got=got.shape, want=want.shape)
        for i in range(len(r)):
            close(got[i], want[i], 1e-6, 1e-11 * want[i].max(initial=0), "SNR^2 by harmonic of source {}".format(i))
    elif case["out"] == "max":
        got, h = snr.snr_ecc_stationary(ret_max_snr_harmonic=True, **kw)
        close(got, tot, 1e-6, atol, "eccentric stationary SNR")
        h = np.asarray(h)
        check(h.shape == (len(r),), "loudest harmonic: shape", got=h.shape)
        for i in range(len(r)):
            check(1 <= h[i] <= case["n"], "loudest harmonic out of range", got=h[i])
            check(want[i, h[i] - 1] >= want[i].max() * (1 - 1e-6), "reported harmonic is not the loudest", source=i, got=int(h[i]),
                  want=int(want[i].argmax() + 1))
    got = snr.snr_ecc_stationary(**kw)
    close(got, tot, 1e-6, atol, "eccentric stationary SNR")


@facet(P, "relations", st.fixed_dictionaries(dict(BASE, n=counts(2, 20, 101, 1001), k=logf(0.01, 100.), s=st.floats(0.2, 5.), pick=st.integers(0, 4))),
       120, 2500, "scaling with distance and time at fixed noise, circular limit through both functions, independence of "
       "neighbours and order; non-trivial: non-zero SNR and >= 2 sources")
def relations(case, rec):
    r, mc, f, e, d, kw = base(case)
    nk, S = noise(case)
    n, k, s = case["n"], case["k"], case["s"]
    ref_c = snr.snr_circ_stationary(**kw, **nk)
    ref_e = snr.snr_ecc_stationary(ecc=e, harmonics_required=n, **kw, **nk)
    rec.nontrivial(len(r) > 1 and bool((ref_c > 0).any()))
    far = dict(kw, dist=kw["dist"] * k)
    close(snr.snr_circ_stationary(**far, **nk) * k, ref_c, 1e-9, what="1/distance (circular)")
    close(snr.snr_ecc_stationary(ecc=e, harmonics_required=n, **far, **nk) * k, ref_e, 1e-9, what="1/distance (eccentric)")
    fixed = {"interpolated_sc": fake_sc}
    one, long = dict(kw), dict(kw, t_obs=kw["t_obs"] * s)
    close(snr.snr_circ_stationary(**long, **fixed), snr.snr_circ_stationary(**one, **fixed) * np.sqrt(s), 1e-9, what="sqrt(T) (circular)")
    args = dict(ecc=e, harmonics_required=n, **fixed)
    close(snr.snr_ecc_stationary(**long, **args), snr.snr_ecc_stationary(**one, **args) * np.sqrt(s), 1e-9, what="sqrt(T) (eccentric)")
    both = snr.snr_ecc_stationary(ecc=0 * e, harmonics_required=n, **kw, **nk)
    close(both, ref_c, 1e-9, what="circular source through both functions")
    i = case["pick"] % len(r)
    alone = {a: (v[[i]] if np.ndim(v) else v) for a, v in kw.items()}
    close(snr.snr_ecc_stationary(ecc=e[[i]], harmonics_required=n, **alone, **nk), ref_e[[i]], 1e-9, what="source alone")
    rev = {a: (v[::-1] if np.ndim(v) else v) for a, v in kw.items()}
    close(snr.snr_ecc_stationary(ecc=e[::-1], harmonics_required=n, **rev, **nk)[::-1], ref_e, 1e-9, what="reverse order")
    more = snr.snr_ecc_stationary(ecc=e, harmonics_required=n + 5, **kw, **nk)
    check(np.all(more >= ref_e * (1 - 1e-9)), "more harmonics lowered the SNR", few=ref_e, many=more)


@facet(P, "supplied_g", st.fixed_dictionaries(dict(BASE, n=st.integers(1, 12))), 60, 800,
       "a supplied g(n, e) is used for every harmonic; non-trivial: non-zero SNR")
def supplied_g(case, rec):
    r, mc, f, e, d, kw = base(case)
    nk, S = noise(case)
    n = np.arange(1, case["n"] + 1)
    if flip_risk(n[None, :] * f[:, None], case) or flip_risk(2 * f, case):
        return

    def g(nn, ee):
        nn, ee = np.broadcast_arrays(nn, ee)
        return 0.5 + nn * 0.1 + ee
    pref2 = 2**(28. / 3) / 5 * (ref.G * mc * ref.MSUN)**(10. / 3) / ref.C**8 / (d * ref.KPC)**2 * (np.pi * f)**(4. / 3) * case["T"] * ref.YR
    with np.errstate(all="ignore"):
        want = pref2[:, None] * g(n[None, :], e[:, None]) / n**2 / S(n[None, :] * f[:, None])
        want_c = pref2 * g(2, 0 * e) / 4 / S(2 * f)
    rec.nontrivial(bool((want > 0).any()))
    got = snr.snr_ecc_stationary(ecc=e, harmonics_required=case["n"], interpolated_g=g, ret_snr2_by_harmonic=True, **kw, **nk)
    close(got, want, 1e-6, what="SNR^2 with a supplied g(n, e)")
    close(snr.snr_circ_stationary(interpolated_g=g, **kw, **nk)**2, want_c, 1e-6, what="circular SNR^2 with a supplied g(n, e)")
