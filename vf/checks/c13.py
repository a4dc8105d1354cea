"""C13 evolving signal-to-noise ratios"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check, overlay_dir
from ..gen import close, col, counts, ecc, logf, q, quiet, rows, units
from legwork import snr
from .c12 import NOISE, noise, fake_sc

P = "C13"
# the merger time in units of the observation time decides how much the source evolves
RATIO = st.one_of(logf(0.05, 0.97), logf(1.05, 30.), logf(1.05, 1e4), st.floats(0.9, 1.2).filter(lambda x: abs(x - 1) > 0.02))
ROW = {"m1": logf(1., 1e4), "m2": logf(1., 1e4), "x": RATIO, "e": st.one_of(ecc(0.9, circ=False, lo=1e-4), st.floats(0.15, 0.9)),
       "d": logf(1., 1e6)}
BASE = {"rows": rows(ROW, max_size=3), "noise": NOISE, "T": st.one_of(st.sampled_from([1., 4., 5.]), st.floats(0.5, 10.)),
        "units": units("mass", "freq", "dist", "time"), "n_step": counts(3, 20, 60, 101, 400, 1001), "merge": st.booleans(), "scalar": st.booleans()}


def setup(case, circ, scalar=False):
    r, un, T = case["rows"], case["units"], case["T"]
    if scalar:
        r = r[:1]
    m1, m2, d = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN, col(r, "d")
    e = 0 * d if circ else col(r, "e")
    b = ref.beta(m1, m2)
    tm = col(r, "x") * T * ref.YR
    if not circ:
        tm = np.maximum(tm, 0.5 * ref.YR)      # sources that merge within t_before have their own facet
        # LEGWORK estimates the merger time with the documented branches: define the track end by that estimate
        a = np.array([(t / ref.t_merge(1.0, x, y))**0.25 for t, x, y in zip(tm, e, b)])
        est = np.array([ref.t_merge_branch(x, y, z) for x, y, z in zip(a, e, b)])
    else:
        a = (4 * b * tm)**0.25
        est = tm
    f = ref.forb(a, m1, m2)
    kw = dict(m_1=q(m1, "kg", un["mass"]), m_2=q(m2, "kg", un["mass"]), f_orb_i=q(f, "Hz", un["freq"]), dist=q(d, "kpc", un["dist"]),
              t_obs=q(T, "yr", un["time"]), n_step=case["n_step"])
    if not circ:
        kw["ecc"] = e
    if case["merge"]:
        kw["t_merge"] = q(est, "s", un["time"])
    if scalar:
        kw = {k: (v[0] if np.ndim(v) else v) for k, v in kw.items()}
    return r, m1, m2, a, b, e, f, d, tm, est, kw


def trap(y, x):
    return (0.5 * (y[1:] + y[:-1]) * (x[1:] - x[:-1])).sum(axis=0)


TOL = 5e-4
EDGES = (1e-7, 2.0, 1e-3, 100., 1e-4, 1.0, 1e-5, 0.5)


@facet(P, "circular", st.fixed_dictionaries(BASE), 300, 6000,
       "random circular sources near merger or evolving, instruments and step counts; integral over the exact track; "
       "non-trivial: non-zero SNR", shards=2)
def circular(case, rec):
    r, m1, m2, a, b, e, f, d, tm, est, kw = setup(case, True, case["scalar"])
    nk, S = noise(case)
    T = case["T"] * ref.YR
    mc = ref.chirp_mass(m1, m2)
    t_end = np.minimum(tm - 1.0, T)
    if (np.abs(tm - 1 - T) < 10).any():
        return
    want = np.zeros(len(r))
    for i in range(len(r)):
        t = np.linspace(0, t_end[i], case["n_step"])
        ft = ref.forb((a[i]**4 - 4 * b[i] * t)**0.25, m1[i], m2[i])
        if any((np.abs(2 * ft / x - 1) < 1e-4).any() for x in EDGES):
            return          # a sample sits on a band edge: rounding decides
        hc2 = ref.hc2(np.full(len(t), mc[i]), ft, 0 * ft, [2], np.full(len(t), d[i] * ref.KPC))[:, 0]
        with np.errstate(all="ignore"):
            want[i] = np.sqrt(trap(hc2 / ((2 * ft)**2 * S(2 * ft)), 2 * ft))
    rec.nontrivial(bool((want > 0).any()))
    rec.label(case["noise"]["instrument"], *(["merges"] if (tm < T).any() else []), *(["slow"] if (tm > 30 * T).any() else []))
    with quiet():
        got = snr.snr_circ_evolving(**kw, **nk)
    close(got, want, 2e-4, 1e-12 * want.max(initial=0), "circular evolving SNR")
    with quiet():
        far = snr.snr_circ_evolving(**dict(kw, dist=kw["dist"] * 7.0), **nk)
    close(7 * far, got, 1e-9, what="1/distance")


def ecc_track(i, t, a, b, e, m1, m2):
    ee = np.array([ref.ecc_at(a[i], e[i], b[i], x) for x in t])
    return ee, ref.forb(ref.c0(a[i], e[i]) * ref.shape_e(ee), m1[i], m2[i])


@facet(P, "merging", st.fixed_dictionaries(dict(BASE, rows=rows(dict(ROW, x=logf(0.1, 0.97), e=st.floats(0.15, 0.9)), max_size=2), n=st.integers(2, 8), n_step=st.sampled_from([100, 200, 400]), out=st.just("snr"))),
       60, 1500, "as below for eccentric sources that merge during the observation, followed in many steps (so the end of the track is known precisely); non-trivial: non-zero SNR")
def merging(case, rec):
    eccentric(case, rec)


@facet(P, "eccentric", st.fixed_dictionaries(dict(BASE, n=counts(1, 25, 100, 101, 250, 1001), out=st.sampled_from(["snr", "max", "each"]))), 300, 6000,
       "random eccentric sources, instruments, step and harmonic counts; integral over the reference track, cut 0.1 yr "
       "before the merger; non-trivial: non-zero SNR", shards=3, thorough_shards=8)
def eccentric(case, rec):
    r, m1, m2, a, b, e, f, d, tm, est, kw = setup(case, False, case["scalar"])
    nk, S = noise(case)
    T, n = case["T"] * ref.YR, np.arange(1, case["n"] + 1)
    mc = ref.chirp_mass(m1, m2)
    end = est - 0.1 * ref.YR
    if (np.abs(end - T) < 1e-6 * T).any() or (np.minimum(end, T) > 0.985 * tm).any():
        return
    lo, hi = np.zeros((len(r), len(n))), np.zeros((len(r), len(n)))
    for i in range(len(r)):
        t = np.linspace(0, min(end[i], T), case["n_step"])
        ee, ft = ecc_track(i, t, a, b, e, m1, m2)
        fn = n[None, :] * ft[:, None]
        if any((np.abs(fn / x - 1) < 2e-3).any() for x in EDGES):
            return
        hc2 = ref.hc2(np.full(len(t), mc[i]), ft, ee, n, np.full(len(t), d[i] * ref.KPC))
        with np.errstate(all="ignore"):
            y = hc2 / (fn**2 * S(fn))
        hi[i] = trap(y, fn)
        # when cut by the merger window the last time lies on the edge of the window and may count as inside it
        lo[i] = trap(y[:-1], fn[:-1]) if end[i] < T else hi[i]
    rec.nontrivial(bool((hi > 0).any()))
    rec.label(case["noise"]["instrument"], case["out"], *(["merges"] if (end < T).any() else []), *(["slow"] if (tm > 30 * T).any() else []))
    kw.update(harmonics_required=case["n"], **nk)
    tot_lo, tot_hi = np.sqrt(lo.sum(axis=1)), np.sqrt(hi.sum(axis=1))

    def judge(got, lo, hi, what):
        check(np.shape(got) == np.shape(hi), what + ": shape", got=np.shape(got), want=np.shape(hi))
        ok = (got >= lo * (1 - TOL) - 1e-9 * hi.max(initial=0)) & (got <= hi * (1 + TOL) + 1e-9 * hi.max(initial=0))
        check(np.all(ok), what, got=np.asarray(got)[~ok][:3], between=(lo[~ok][:3].tolist(), hi[~ok][:3].tolist()))
    with quiet():
        got = snr.snr_ecc_evolving(**kw)
        judge(got, tot_lo, tot_hi, "eccentric evolving SNR")
        each = snr.snr_ecc_evolving(ret_snr2_by_harmonic=True, **kw)
        close(np.sqrt(each.sum(axis=1)), got, 1e-9, what="SNR^2 by harmonic sums to the total")
        if case["out"] == "each":
            judge(each, lo, hi, "SNR^2 by harmonic")
        elif case["out"] == "max":
            tot, h = snr.snr_ecc_evolving(ret_max_snr_harmonic=True, **kw)
            close(tot, got, 1e-9, what="SNR with the loudest harmonic")
            h = np.asarray(h)
            check(h.shape == (len(r),), "loudest harmonic: shape", got=h.shape)
            for i in range(len(r)):
                check(1 <= h[i] <= case["n"], "loudest harmonic out of range", got=h[i])
                check(each[i, h[i] - 1] >= each[i].max() * (1 - 1e-9), "reported harmonic is not the loudest", got=h[i], snr2=each[i])
        far = snr.snr_ecc_evolving(**dict(kw, dist=kw["dist"] * 7.0))
    close(7 * far, got, 1e-9, what="1/distance")


@facet(P, "slow_limit", st.fixed_dictionaries({
    "rows": rows(dict(ROW, x=logf(1e6, 1e8)), max_size=3), "T": st.floats(0.5, 10.), "n": st.integers(2, 15), "n_step": st.integers(3, 30),
    "noise": NOISE, "units": units("mass", "freq", "dist", "time"), "merge": st.booleans()}), 100, 2000,
    "sources that hardly evolve: evolving SNR equals stationary SNR; non-trivial: non-zero SNR")
def slow_limit(case, rec):
    nk, S = noise(case)
    for circ in (True, False):
        r, m1, m2, a, b, e, f, d, tm, est, kw = setup(case, circ)
        n = np.arange(1, case["n"] + 1)
        fn = n[None, :] * f[:, None]
        if any((np.abs(fn / x - 1) < 1e-3).any() for x in EDGES):
            continue
        st_kw = dict(m_c=ref.chirp_mass(m1, m2) * u.kg, f_orb=f * u.Hz, dist=d * u.kpc, t_obs=kw["t_obs"])
        with quiet():
            if circ:
                got, want = snr.snr_circ_evolving(**kw, **nk), snr.snr_circ_stationary(**st_kw, **nk)
            else:
                got = snr.snr_ecc_evolving(harmonics_required=case["n"], **kw, **nk)
                want = snr.snr_ecc_stationary(ecc=e, harmonics_required=case["n"], **st_kw, **nk)
        rec.nontrivial(bool((want > 0).any()))
        # the growth in frequency over T is ~ 3/8 T/t_merge = 4e-7 .. 4e-9: cancellation limits the integral
        close(got, want, 3e-2 if not circ else 2e-3, 1e-12 * want.max(initial=0), "slow limit ({})".format("circular" if circ else "eccentric"))


@facet(P, "supplied_g", st.fixed_dictionaries(dict(BASE, n=st.integers(1, 8))), 60, 800,
       "a supplied g(n, e) and a batch of sources: per-source independence, order, and linearity in g; non-trivial: non-zero SNR")
def supplied_g(case, rec):
    nk, S = noise(case)

    def g(k):
        def inner(nn, ee):
            nn, ee = np.broadcast_arrays(nn, ee)
            return k * (0.5 + nn * 0.1 + ee)
        return inner
    for circ in (True, False):
        r, m1, m2, a, b, e, f, d, tm, est, kw = setup(case, circ)
        fn = snr.snr_circ_evolving if circ else snr.snr_ecc_evolving
        if not circ:
            kw["harmonics_required"] = case["n"]
        with quiet():
            one = fn(interpolated_g=g(1.0), **kw, **nk)
            four = fn(interpolated_g=g(4.0), **kw, **nk)
            close(four, 2 * one, 1e-9, what="SNR linear in sqrt(g)")
            plain = fn(**kw, **nk)
            i = len(r) - 1
            alone = fn(**{k: (v[[i]] if np.ndim(v) else v) for k, v in kw.items()}, **nk)
            close(alone, plain[[i]], 1e-7, what="source alone vs in the batch")
            rev = fn(**{k: (v[::-1] if np.ndim(v) else v) for k, v in kw.items()}, **nk)
            close(rev[::-1], plain, 1e-7, what="reverse order")
        rec.nontrivial(bool((one > 0).any()))
        if circ and (one > 0).all():
            # for e=0 only n=2 counts and a supplied g enters as a constant factor
            close(one / plain, np.full(len(r), np.sqrt(0.7)), 1e-6, what="supplied g in the circular evolving SNR")


@facet(P, "last_tenth_year", st.fixed_dictionaries({"m": logf(5., 100.), "e": st.floats(0.2, 0.6), "tm": st.floats(0.02, 0.09)}), 6, 40,
       "eccentric sources merging within 0.1 yr still have an SNR (known finding); all non-trivial")
def last_tenth_year(case, rec):
    rec.nontrivial()
    m = np.array([case["m"]]) * ref.MSUN
    e = case["e"]
    a = (case["tm"] * ref.YR / np.array([ref.t_merge(1.0, e, x) for x in ref.beta(m, m)]))**0.25
    with quiet():
        got = snr.snr_ecc_evolving(m_1=m * u.kg, m_2=m * u.kg, f_orb_i=ref.forb(a, m, m) * u.Hz, dist=[1.] * u.Mpc, ecc=np.array([e]),
                                   harmonics_required=10, t_obs=4 * u.yr, n_step=50)
    check(got[0] != 0, "[known:ecc-last-0.1yr] an eccentric source merging within 0.1 yr gets SNR 0", t_merge_yr=case["tm"])
    check(np.isfinite(got[0]) and got[0] > 0, "SNR of a source merging within 0.1 yr is not positive", got=got)


@facet(P, "last_second", st.fixed_dictionaries({"m1": logf(1., 1e6), "m2": logf(1., 1e6), "tm": logf(1e-3, 3.), "d": logf(1., 1e6),
                                                "noise": NOISE, "n_step": st.integers(2, 10), "T": st.floats(0.5, 5.)}), 60, 800,
       "circular sources that merge within seconds: a finite SNR that is not negative; non-trivial: merges within 1 s")
def last_second(case, rec):
    m1, m2 = np.array([case["m1"]]) * ref.MSUN, np.array([case["m2"]]) * ref.MSUN
    f = ref.forb((4 * ref.beta(m1, m2) * case["tm"])**0.25, m1, m2)
    nk, S = noise(case)
    rec.nontrivial(case["tm"] < 1)
    with quiet():
        got = snr.snr_circ_evolving(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=f * u.Hz, dist=[case["d"]] * u.kpc, t_obs=case["T"] * u.yr,
                                    n_step=case["n_step"], **nk)
    check(np.all(np.isfinite(got)) and np.all(got >= 0), "SNR of a source about to merge", got=got)
