"""C22 interpolated shortcuts agree with the direct computation"""
import os
import runpy
import shutil
import tempfile
from unittest import mock

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check, overlay_dir
from ..gen import close, col, ecc, logf, mass, q, quiet, rows, same, unit, units
from .c12 import loud, loud_ref
from ..overlay import REPO
from legwork import snr, source, strain, utils

P = "C22"
BOTH = ("harmonics", "peters_g")
_G = []


def table():
    """the interpolated g(n, e) of a collection, loaded once per process"""
    if not _G:
        one = dict(m_1=[1.] * u.Msun, m_2=[1.] * u.Msun, ecc=np.array([0.1]), dist=[1.] * u.kpc, f_orb=[1e-3] * u.Hz)
        with quiet():
            s = source.Source(interpolate_sc=False, **one)          # interpolating g is the default
        check(s.interpolate_g is True and callable(s.g), "the default collection has no interpolated g", got=s.g)
        _G.append(s.g)
    return _G[0]


E_TAB = st.one_of(st.floats(0., 0.97), st.integers(0, 970).map(lambda i: i / 999.), st.integers(0, 969).map(lambda i: (i + 0.5) / 999.), logf(1e-6, 0.1), ecc(0.95))
N_TAB = st.one_of(st.integers(1, 12), st.integers(1, 200), st.integers(1, 3000), st.integers(9000, 10000))


@facet(P, "harmonics", st.fixed_dictionaries({"n": st.lists(N_TAB, min_size=1, max_size=30, unique=True), "e": st.lists(E_TAB, min_size=1, max_size=12), "m": mass, "f": logf(1e-6, 1e-1), "d": logf(1e-2, 1e5),
                                              "units": units("mass", "freq", "dist"), "which": st.sampled_from(["h_0_n", "h_c_n"]), "table_only": st.booleans(),
                                              "under": st.sampled_from([0., 0., 1e-7, 1e-4])}), 400, 20000,
       "the interpolated harmonic power and the strains computed with it for random harmonics and eccentricities of the table, against the reference series; finite and "
       "never negative, and zero where the interpolation undershoots (as it is, or made to); non-trivial: some non-negligible harmonic", data=BOTH, shards=2)
def harmonics(case, rec):
    n, e = np.array(sorted(case["n"])), np.array(case["e"])
    g = table()
    want = ref.peters_g(n[None, :], e[:, None])
    rec.nontrivial(bool((want > 1e-6).any()))
    rec.label("beyond 1000" if n.max() > 1000 else "up to 1000", "circular" if (e == 0).any() else "eccentric")
    if case["table_only"]:
        E, N = np.meshgrid(e, n, indexing="ij")
        close(np.asarray(g(N, E)), want, 2e-4, 1e-5 * max(1.0, want.max()), "interpolated g(n, e)")
        return
    un = case["units"]
    fn = getattr(strain, case["which"])
    kw = dict(m_c=q(np.full(len(e), case["m"]), "Msun", un["mass"]), f_orb=q(np.full(len(e), case["f"]), "Hz", un["freq"]), ecc=e, n=n, dist=q(np.full(len(e), case["d"]), "kpc", un["dist"]))
    under = case.get("under", 0.)
    got = np.asarray(fn(interpolated_g=g, **kw))
    direct = np.asarray(fn(**kw))
    if under:
        # an interpolation that undershoots for harmonics without power
        dip = np.asarray(fn(interpolated_g=lambda n_, e_: np.where(g(n_, e_) < under, -under, g(n_, e_)), **kw)).reshape(want.shape)
        E, N = np.meshgrid(e, n, indexing="ij")
        low = np.asarray(g(N, E)) < under
        check((dip[low] == 0).all(), "strain where the interpolated power is negative", got=dip[low][:4])
        same(dip[~low], got.reshape(want.shape)[~low], "strain of the harmonics with power")
    check(got.shape == direct.shape, "shape", got=got.shape, want=direct.shape)
    check(np.isfinite(got).all() and (got >= 0).all(), "strains must be finite and not negative", got=got[~(np.isfinite(got) & (got >= 0))][:4])
    # scale of one unit of sqrt(g)
    mc, f, d = case["m"] * ref.MSUN, case["f"], case["d"] * ref.KPC
    if case["which"] == "h_0_n":
        w = ref.h0(np.full(len(e), mc), np.full(len(e), f), e, n, np.full(len(e), d))
    else:
        w = np.sqrt(ref.hc2(np.full(len(e), mc), np.full(len(e), f), e, n, np.full(len(e), d)))
    got, direct = got.reshape(want.shape), direct.reshape(want.shape)
    big = want > 1e-6
    close(got[big], direct[big], 2e-4, what=case["which"] + ": interpolated against direct")
    close(got[big], w[big], 2e-4, what=case["which"] + ": interpolated against the reference")
    # negligible harmonics stay negligible
    top = direct.max(axis=1, keepdims=True)
    if (want.max(axis=1) > 1e-3).all():
        check((np.abs(got - direct) <= 1e-2 * top + 2e-4 * direct).all(), "a negligible harmonic became strong", got=got, want=direct)


@facet(P, "generator", st.fixed_dictionaries({"k": st.lists(st.floats(0.1, 3.), min_size=4, max_size=4), "at": st.lists(st.tuples(st.floats(1, 10000), st.floats(0, 1)), min_size=20, max_size=80)}), 2, 20,
       "the script that makes the table of g(n, e), run in a scratch folder with a stand-in for the (slow) series: a collection that loads its table interpolates the stand-in at random "
       "harmonics and eccentricities; non-trivial: all", data=("harmonics",))
def generator(case, rec):
    script = os.path.join(REPO, "helpers", "generate_g_data.py")
    if not os.path.exists(script):
        return
    rec.nontrivial()
    a, b, c, d = case["k"]

    def stand_in(n, e):
        return a + b * np.asarray(n) / 1000 + c * np.asarray(e) + d * np.asarray(n) * np.asarray(e) / 1000

    here, real, seen = os.getcwd(), np.load, []
    with tempfile.TemporaryDirectory(prefix="legwork_table_") as tmp:
        os.makedirs(os.path.join(tmp, "helpers"))
        os.makedirs(os.path.join(tmp, "src", "legwork"))
        shutil.copy(script, os.path.join(tmp, "helpers"))
        made = os.path.join(tmp, "src", "legwork", "peters_g.npy")
        try:
            os.chdir(os.path.join(tmp, "helpers"))
            with mock.patch.object(utils, "peters_g", stand_in):
                runpy.run_path(os.path.join(tmp, "helpers", "generate_g_data.py"), run_name="__main__")
        finally:
            os.chdir(here)
        check(os.path.exists(made), "the script makes no src/legwork/peters_g.npy", got=os.listdir(os.path.join(tmp, "src", "legwork")))

        def load(path, *args, **kw):
            if str(path).endswith("peters_g.npy"):
                seen.append(path)
                path = made
            return real(path, *args, **kw)

        with quiet(), mock.patch.object(np, "load", load):
            s = source.Source(m_1=[1.] * u.Msun, m_2=[1.] * u.Msun, ecc=np.array([0.1]), dist=[1.] * u.kpc, f_orb=[1e-3] * u.Hz, interpolate_sc=False)
    if not seen:
        return
    n, e = np.round([x[0] for x in case["at"]]).astype(int), np.array([x[1] for x in case["at"]])
    close(np.asarray(s.g(n, e)), stand_in(n, e), 1e-6, what="table made by the script")


ROWS = coll.members(st.lists(st.one_of(coll.row(x_lo=2.0), coll.row(x_lo=2.0, circ=False), coll.row(x_lo=2.0)), min_size=1, max_size=6))
FN = st.sampled_from(["get_snr", "get_snr", "get_snr_stationary", "get_snr_evolving", "h_0_n", "h_c_n"])


@facet(P, "collections_g", st.fixed_dictionaries({"rows": ROWS, "set": coll.SETTINGS, "fn": FN, "n": st.integers(1, 30), "T": st.sampled_from([1., 4., 10.]), "n_step": st.integers(3, 40), "sky": st.booleans()}), 120, 3000,
       "signal-to-noise ratios and strains of random collections with the interpolated g(n, e) against the same collection without; non-trivial: an eccentric member",
       data=BOTH, shards=2, thorough_shards=4)
def collections_g(case, rec):
    r = case["rows"]
    if case["sky"]:
        r = [dict(x, e=0.0) for x in r]
    a, b = coll.make(r, case["set"], with_sky=case["sky"]), coll.make(r, case["set"], with_sky=case["sky"])
    b.g = table()
    compare(case, rec, a, b, 2e-4, case["fn"])


def compare(case, rec, a, b, tol, fn):
    """the same call on the direct (a) and on the interpolating collection (b)"""
    rec.label(fn, *(["evolving"] if (~a.get_source_mask(stationary=True)).any() else []))
    with quiet():
        if fn.startswith("h_"):
            n = np.arange(1, case["n"] + 1)
            x, y = getattr(a, "get_" + fn)(n), getattr(b, "get_" + fn)(n)
            rec.nontrivial(bool((np.asarray(a.ecc) > 0).any()))
        else:
            kw = dict(t_obs=case["T"] * u.yr)
            if fn != "get_snr_stationary":
                kw["n_step"] = case["n_step"]
            x, y = getattr(a, fn)(**kw), getattr(b, fn)(**kw)
            rec.nontrivial(bool((np.asarray(x) > 0).any()))
    x, y = np.asarray(x), np.asarray(y)
    check(x.shape == y.shape, fn + ": shape", got=y.shape, want=x.shape)
    check(np.isfinite(y).all() and (y >= 0).all(), fn + ": must be finite and not negative", got=y[~(np.isfinite(y) & (y >= 0))][:4])
    if fn.startswith("h_"):
        floor = 1e-2 * x.max(axis=1, keepdims=True)
        ok = np.abs(y - x) <= np.where(x > floor, tol * x, floor)
        check(ok.all(), fn + ": interpolated against direct", got=y[~ok][:3], want=x[~ok][:3])
    else:
        close(y, x, tol, 1e-12 * x.max(initial=0), fn + ": interpolated against direct")
        if fn == "get_snr":
            hx, hy = np.asarray(a.max_snr_harmonic), np.asarray(b.max_snr_harmonic)
            check(hx.shape == hy.shape and ((hy >= 1) | (x == 0)).all(), "loudest harmonics", got=hy)


INST = st.sampled_from(["LISA", "LISA", "TianQin", "DECIGO", "custom"])
SET = {"inst": INST, "T": st.one_of(st.sampled_from([0.5, 1., 4., 5., 10.]), st.floats(0.3, 10.)), "auto": st.booleans(), "model": st.sampled_from(["auto", "auto", None, "robson19", "huang20", "loud"]),
       "approx": st.booleans(), "L": st.one_of(st.none(), logf(1e9, 3e9))}


def my_psd(f, t_obs=None, L=None, approximate_R=False, confusion_noise=None):
    x = f.to(u.Hz).value
    return 1e-41 * (1 + (1e-3 / x)**4 + (x / 1e-2)**2) / u.Hz


def settings(c):
    p = {"instrument": c["inst"]}
    if c["inst"] == "custom":
        p["custom_psd"] = my_psd
    if not c["auto"]:
        p["t_obs"] = c["T"] * u.yr
    if c["model"] != "auto":
        p["confusion_noise"] = loud if c["model"] == "loud" else c["model"]
    if c["approx"]:
        p["approximate_R"] = True
    if c["L"] is not None and c["inst"] != "custom":
        p["L"] = c["L"] * u.m
    return p


def S_ref(c, f):
    if c["inst"] == "custom":
        return my_psd(f * u.Hz).value
    T = None if c["auto"] else c["T"]
    with np.errstate(all="ignore"):
        if c["model"] == "loud":
            return ref.psd(f, c["inst"], T, c["L"], c["approx"], None, overlay_dir(), cn=loud_ref)
        return ref.psd(f, c["inst"], T, c["L"], c["approx"], c["model"], overlay_dir())


BAND = {"LISA": (1e-7, 2.0), "TianQin": (1e-7, 2.0), "DECIGO": (1e-3, 100.), "custom": (1e-7, 2.0)}
OUT = st.one_of(logf(1e-12, 5e-8), logf(210., 1e6))


@facet(P, "noise", st.fixed_dictionaries(dict(SET, x=st.lists(st.one_of(st.floats(0.002, 0.998), st.sampled_from([0.0001, 0.5, 0.9999])), min_size=1, max_size=30), out=st.lists(OUT, max_size=4), unit=unit("freq"),
                                              how=st.sampled_from(["init", "assign", "items"]))), 300, 10000,
       "interpolated noise curves for random instrument settings: between the extremes of the reference noise around each frequency, practically infinite outside every table; "
       "non-trivial: at least 3 frequencies", data=("harmonics",), shards=2)
def noise_curve(case, rec):
    p = settings(case)
    rec.label(case["inst"], case["how"])
    one = dict(m_1=[10.] * u.Msun, m_2=[10.] * u.Msun, ecc=np.array([0.0]), dist=[8.] * u.kpc, f_orb=[1e-3] * u.Hz, interpolate_g=False)
    with quiet():
        s = source.Source(sc_params=p if case["how"] == "init" else {}, **one)      # interpolating the noise is the default
        if case["how"] == "assign":
            s.sc_params = p
        elif case["how"] == "items":
            s.sc_params.update(p)
    check(callable(s.sc), "no interpolated noise curve", got=s.sc)
    lo, hi = BAND[case["inst"]]
    f = lo * (hi / lo)**np.array(case["x"])
    rec.nontrivial(len(f) >= 3)
    if case["out"]:
        blind = s.sc(q(np.array(case["out"]), "Hz", case["unit"])).to(1 / u.Hz).value
        check((blind >= 1e20).all(), "frequencies outside the table must contribute nothing", got=blind, f=case["out"])
    got = s.sc(q(f, "Hz", case["unit"]))
    check(isinstance(got, u.Quantity) and got.unit.is_equivalent(1 / u.Hz), "unit of the noise", got=getattr(got, "unit", None))
    got = got.to(1 / u.Hz).value
    check(got.shape == f.shape, "shape of the noise", got=got.shape, want=f.shape)
    # reference around each frequency, within the band
    around = np.clip(f[:, None] * np.linspace(0.9965, 1.0035, 81)[None, :], lo * (1 + 1e-9), hi * (1 - 1e-9))
    S = S_ref(case, around)
    mn, mx = S.min(axis=1), S.max(axis=1)
    ok = (got >= mn * (1 - 1e-6)) & (got <= mx * (1 + 1e-6))
    ok |= np.isnan(S).any(axis=1) & (got > 0) & np.isfinite(got)        # the reference makes no claim here
    check(ok.all(), "interpolated noise", f=f[~ok][:3], got=got[~ok][:3], between=list(zip(mn[~ok][:3], mx[~ok][:3])))
    low = (f < 0.02) & (f > 3e-7) if case["inst"] != "DECIGO" else f > 1.1e-3
    close(got[low], S_ref(case, f[low]), 3e-3, what="interpolated noise against the reference")


@facet(P, "collections_sc", st.fixed_dictionaries(dict(SET, rows=ROWS, set=coll.SETTINGS, fn=st.sampled_from(["get_snr", "get_snr", "get_snr_stationary", "get_snr_evolving"]), n_step=st.integers(3, 40),
                                                       by=st.sampled_from(["params", "params", "toggle"]), g=st.booleans(), inst2=st.sampled_from([None, None, "LISA", "TianQin"]))), 160, 4000,
       "signal-to-noise ratios of random collections with the interpolated noise curve (and the interpolated g) against the same collection without, also after the instrument "
       "changes; non-trivial: some non-zero SNR", data=BOTH, shards=2, thorough_shards=4)
def collections_sc(case, rec):
    p = settings(case)
    r = case["rows"]
    a = coll.make(r, dict(case["set"], sc=False), sc_params=p)
    if case["by"] == "toggle":
        b = coll.make(r, dict(case["set"], sc=False), sc_params=p)
        b.interpolate_sc = True
        b.set_sc()
    else:
        b = coll.make(r, dict(case["set"], sc=True), sc_params=p)
    check(a.sc is None and callable(b.sc), "interpolated noise curves", got=(a.sc, b.sc))
    if case["g"]:
        b.g = table()
    if case["inst2"] and case["inst"] != "custom":
        for s in (a, b):
            with quiet():
                s.sc_params["instrument"] = case["inst2"]
    inst = a.sc_params["instrument"]
    rec.label(inst, "both shortcuts" if case["g"] else "noise only", *(["evolving"] if (~a.get_source_mask(stationary=True)).any() else []))
    if inst == "TianQin" or inst == "custom":
        # beyond the table (2 Hz) these have finite noise of their own: keep to members that stay below
        f, e, st_ = a.f_orb.to(u.Hz).value, np.asarray(a.ecc), a.get_source_mask(stationary=True, t_obs=case["T"] * u.yr)
        keep = st_ & np.where(e <= a.ecc_tol, f < 0.9, (f < 5e-3) & (e < 0.9))
        keep &= f > 1e-6
        if not keep.any():
            return
        with quiet():
            a, b = a[keep], b[keep]
            if case["g"]:
                b.g = table()
    kw = dict(t_obs=case["T"] * u.yr)
    fn = case["fn"]
    if fn != "get_snr_stationary":
        kw["n_step"] = case["n_step"]
    with quiet():
        x, y = np.asarray(getattr(a, fn)(**kw)), np.asarray(getattr(b, fn)(**kw))
    rec.nontrivial(bool((x > 0).any()))
    check(np.isfinite(y).all() and (y >= 0).all(), fn + ": must be finite and not negative", got=y)
    f = a.f_orb.to(u.Hz).value
    tight = a.get_source_mask(circular=True, stationary=True, t_obs=case["T"] * u.yr) & (2 * f < 0.02) & (2 * f > (3e-7 if inst != "DECIGO" else 1.1e-3))
    near = np.abs(2 * f / BAND[inst][0] - 1) < 5e-3
    near |= np.abs(2 * f / BAND[inst][1] - 1) < 5e-3
    tol = np.where(tight, 1e-3, 2e-2)
    floor = 1e-9 * x.max(initial=0)
    ok = (np.abs(y - x) <= tol * x + floor) | near
    if inst == "DECIGO":
        ok |= f < 2e-3          # members that enter the band during the observation or by a harmonic at its very edge
    check(ok.all(), fn + ": interpolated against direct noise", got=y[~ok][:3], want=x[~ok][:3], f=f[~ok][:3])


@facet(P, "real_use", st.fixed_dictionaries({"rows": st.lists(coll.row(x_lo=2.0), min_size=1, max_size=5), "set": coll.SETTINGS, "back": st.booleans()}), 3, 12,
       "collections constructed with both shortcuts in the default way, switched off and on again: the direct results, bit for bit when switched off; non-trivial: always", data=BOTH)
def real_use(case, rec):
    rec.nontrivial()
    a = coll.make(case["rows"], dict(case["set"], sc=False))
    with quiet():
        b = source.Source(**{k: v for k, v in coll.kwargs(case["rows"], dict(case["set"], sc=True)).items() if k not in ("interpolate_g", "interpolate_sc")})
        check(b.interpolate_g is True and b.interpolate_sc is True and callable(b.g) and callable(b.sc), "the shortcuts are on by default")
        x = a.get_snr()
        close(b.get_snr(), x, 2e-2, 1e-9 * x.max(), "default collection")
        b.set_g(False)
        b.interpolate_sc = False
        b.set_sc()
        same(b.get_snr(), x, "shortcuts switched off")
        if case["back"]:
            b.set_g(True)
            b.interpolate_sc = True
            b.set_sc()
            close(b.get_snr(), x, 2e-2, 1e-9 * x.max(), "shortcuts switched on again")
