"""C07 eccentric evolution"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_freq, any_mass, bh_mass, close, col, counts, ecc, logf, q, quiet, rows, same, units, val
from .c06 import shared, staggered
from legwork import evol

P = "C07"
E = st.one_of(ecc(0.95, circ=False, lo=1e-8), st.floats(0.02, 0.97), logf(1e-8, 1e-2))
ROW = {"m1": any_mass, "m2": any_mass, "f": any_freq, "e": E}
FRAC = st.one_of(st.floats(1e-9, 0.95), st.floats(0.9, 1.3), logf(1e-6, 1.), st.sampled_from([0.5, 0.9, 1.0]))
MODE = st.sampled_from(["mf", "ma", "ba+m", "bf"])


def si(r):
    m1, m2 = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN
    a, b, e = ref.sma(col(r, "f"), m1, m2), ref.beta(m1, m2), col(r, "e")
    return m1, m2, a, b, e, np.array([ref.t_merge(x, y, z) for x, y, z in zip(a, e, b)])


def kwargs(case, r):
    m1, m2, a, b, e, tm = si(r)
    un, mode = case["units"], case["mode"]
    kw = dict(ecc_i=e, m_1=q(m1, "kg", un["mass"]), m_2=q(m2, "kg", un["mass"]))
    if mode.startswith("b"):
        kw["beta"] = b * u.m**4 / u.s
    if mode in ("ma", "ba+m"):
        kw["a_i"] = q(a, "m", un["len"])
    else:
        kw["f_orb_i"] = q(col(r, "f"), "Hz", un["freq"])
    return kw


ALL = ["timesteps", "ecc", "a", "f_orb", "f_GW"]


def judge_orbit(out, m1, m2, a, e, what):
    """separation and frequencies follow from the eccentricity on the same c_0 orbit"""
    ee = np.asarray(out[1])
    aa, ff, fg = val(out[2], "m"), val(out[3], "Hz"), val(out[4], "Hz")
    check(ee.shape == aa.shape == ff.shape == fg.shape, what + ": shapes differ")
    check(np.all(np.isfinite(ee)) and np.all((ee >= 0) & (ee < 1)), what + ": eccentricity out of range", e=ee)
    with np.errstate(all="ignore"):
        want_a = np.where(ee > 0, ref.c0(a, e)[:, None] * ref.shape_e(np.where(ee > 0, ee, 0.5)), 0.0)
    close(aa, want_a, 1e-8, what=what + ": separation on the c_0 orbit")
    want_f = np.where(want_a > 0, ref.forb(np.where(want_a > 0, want_a, 1.0), m1[:, None], m2[:, None]), 100.)
    close(ff, want_f, 1e-7, what=what + ": orbital frequency")
    close(fg, 2 * ff, 1e-9, what=what + ": f_GW = 2 f_orb")
    check(np.all(np.diff(ee, axis=1) <= 1e-9 * ee[:, :1]), what + ": eccentricity increases", e=ee)
    check(np.all(np.diff(aa, axis=1) <= 1e-7 * aa[:, :1]), what + ": separation increases", a=aa)


def judge_ecc(ee, t, a, e, b, tm, what, picks=None):
    for i in range(ee.shape[0]):
        for j in range(ee.shape[1]):
            if t[i, j] > 0.985 * tm[i] or (picks is not None and j not in picks):
                continue
            want = ref.ecc_at(a[i], e[i], b[i], t[i, j])
            tol = 3e-5 if t[i, j] <= 0.9 * tm[i] else 5e-4
            close(ee[i, j], want, tol, what="{}: eccentricity of source {} after {:.4g} of its merger time".format(
                what, i, t[i, j] / tm[i]))


def run_law(case, rec):
    r = shared(case)
    if case["same_a"]:
        r = [dict(x, e=r[0]["e"]) for x in r]
    r = r[:1] if case["scalar"] else r
    m1, m2, a, b, e, tm = si(r)
    fr = np.unique([0.0] + case["fr"])
    kw, un, shape = kwargs(case, r), case["units"]["time"], case["shape"]
    if case["scalar"]:
        kw = {k: (float(v[0]) if k == "ecc_i" else v[0]) for k, v in kw.items()}
    if not case["avoid"]:
        fr = fr * 0.98 / max(fr.max(), 0.98)       # stay before the merger when it is not avoided
    if shape == "1d":
        t = np.repeat((fr * tm.min())[None, :], len(r), 0)
        kw["timesteps"] = q(t[0], "s", un)
    elif shape in ("2d", "2d_ends"):
        t = fr[None, :] * tm[:, None] if shape == "2d" else staggered(fr, tm.min(), len(r))
        kw["timesteps"] = q(t, "s", un)
    elif shape == "t_evol":
        T = fr[-1] * tm.min()
        t = np.repeat(np.linspace(0, T, case["n_step"])[None, :], len(r), 0)
        kw.update(t_evol=q(T, "s", un), n_step=case["n_step"])
    elif shape == "t_evol_each":
        T = fr[-1] * tm
        t = np.linspace(0, T, case["n_step"]).T
        kw.update(t_evol=q(T if not case["scalar"] else T[0], "s", un), n_step=case["n_step"])
    frozen = np.zeros_like(t, dtype=bool)
    if case["avoid"]:
        t_before = max(case["before"] * tm.min(), 0.05 * tm.max())
        kw["t_before"] = q(t_before, "s", un)
        tmm = tm
        if case["merge"] == "given":
            kw["t_merge"] = q(tm if not case["scalar"] else tm[0], "s", un)
        else:
            kw["exact_t_merge"] = case["merge"] == "exact"
            # the window is relative to LEGWORK's own estimate of the merger time (C05 judges that estimate)
            est = evol.get_t_merge_ecc(ecc_i=e, a_i=a * u.m, beta=b * u.m**4 / u.s, exact=kw["exact_t_merge"])
            tmm = val(est, "s")
        edge = (tmm - t_before)[:, None]
        frozen = t >= edge
        frozen[:, 0] = False
        unsure = np.abs(t - edge) <= 1e-8 * tm[:, None]
        unsure[:, 0] = False
        if unsure.any():
            rec.label("on the edge (skipped)")
            return
    else:
        kw["avoid_merger"] = False
    rec.label(shape, "avoid:" + case["merge"] if case["avoid"] else "no avoidance", "scalar" if case["scalar"] else "array")
    rec.label(*(["frozen"] if frozen.any() else []))
    rec.nontrivial(bool(((t > 0) & ~frozen).any()))
    t_eff = np.where(frozen, np.where(frozen, -1, t).max(axis=1)[:, None], t)
    before = {k: v.copy() for k, v in kw.items() if isinstance(v, (u.Quantity, np.ndarray))}
    with quiet():
        out = evol.evol_ecc(output_vars=ALL, **kw)
    for k, v in before.items():
        same(kw[k], v, "argument " + k)
    if case["scalar"]:
        for z in out:
            check(np.ndim(z) == 1, "single source output is not 1D", got=np.shape(z))
        out = [z[None, :] for z in out]
    for z in out:
        check(z.shape == t.shape, "evol_ecc: shape", got=z.shape, want=t.shape)
    close(val(out[0], "s"), t_eff, 1e-9, 1e-6, "evol_ecc: timesteps (frozen ones repeat the last valid time)")
    ee = np.asarray(out[1])
    close(ee[:, 0], e, 1e-12, what="first timestep is the initial state")
    for i in range(len(r)):
        if frozen[i].any():
            last = np.flatnonzero(~frozen[i])[-1]
            close(ee[i][frozen[i]], np.full(frozen[i].sum(), ee[i, last]), 1e-9, what="frozen timesteps")
    judge_orbit(out, m1, m2, a, e, "evol_ecc")
    picks = set(np.linspace(0, t.shape[1] - 1, 4).astype(int).tolist() + [1])
    judge_ecc(ee, t_eff, a, e, b, tm, "evol_ecc", picks)


CASE = st.fixed_dictionaries({
    "rows": rows(ROW, max_size=4), "mode": MODE, "units": units("mass", "freq", "len", "time"),
    "fr": st.lists(FRAC, min_size=1, max_size=6), "shape": st.sampled_from(["1d", "2d", "2d_ends", "t_evol", "t_evol_each"]), "same_a": st.booleans(),
    "n_step": counts(2, 30, 101, 400, 1001, 3000), "scalar": st.booleans(), "avoid": st.booleans(), "before": st.floats(0.05, 0.6),
    "merge": st.sampled_from(["given", "exact", "fit"])})
RULE = ("random eccentric binaries; times in all supported forms with and without the avoidance window; "
        "eccentricity against the inverted Peters integral; non-trivial: some judged time > 0 before the window")
facet(P, "law", CASE, 400, 8000, RULE, shards=3, thorough_shards=8)(run_law)
facet(P, "law_jit", CASE, 20, 300, RULE + " (numba on)", jit=True)(run_law)


@facet(P, "default_window", st.fixed_dictionaries({
    "rows": rows({"m1": logf(0.3, 50), "m2": logf(0.3, 50), "e": st.floats(0.05, 0.9), "tm": logf(3e5, 1e10)}),
    "n": st.integers(2, 12), "T": logf(0.02, 1.0), "exact": st.booleans()}), 150, 2500,
    "defaults (avoid the merger by 1 Myr, fit for the merger time, t_evol = merger time or a fraction); "
    "non-trivial: some timestep is frozen and some is not")
def default_window(case, rec):
    r = case["rows"]
    m1, m2, e = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN, col(r, "e")
    b = ref.beta(m1, m2)
    unit_t = np.array([ref.t_merge(1.0, x, y) for x, y in zip(e, b)])
    a = (col(r, "tm") * ref.YR / unit_t)**0.25
    tm = col(r, "tm") * ref.YR
    n = case["n"]
    T = case["T"] * tm
    t = np.linspace(0, T, n).T
    est = val(evol.get_t_merge_ecc(ecc_i=e, a_i=a * u.m, beta=b * u.m**4 / u.s, exact=case["exact"]), "s")
    edge = (est - 1e6 * ref.YR)[:, None]
    frozen = t >= edge
    frozen[:, 0] = False
    if (np.abs(t - edge) <= 1e-8 * tm[:, None])[:, 1:].any():
        return
    rec.nontrivial(bool(frozen.any() and (~frozen[:, 1:]).any()))
    t_eff = np.where(frozen, np.where(frozen, -1, t).max(axis=1)[:, None], t)
    with quiet():
        out = evol.evol_ecc(ecc_i=e, m_1=m1 * u.kg, m_2=m2 * u.kg, a_i=a * u.m, t_evol=T * u.s, n_step=n,
                            output_vars=ALL, exact_t_merge=case["exact"])
    close(val(out[0], "s"), t_eff, 1e-9, 1e-6, "timesteps with the default window")
    # judge only where the last valid time is really before the merger (the estimate may be 3 % late)
    ok = (t_eff < 0.985 * tm[:, None]).all(axis=1)
    if ok.any():
        judge_orbit([z[ok] for z in out], m1[ok], m2[ok], a[ok], e[ok], "default window")
        judge_ecc(np.asarray(out[1])[ok], t_eff[ok], a[ok], e[ok], b[ok], tm[ok], "default window", {1, n // 2, n - 1})


@facet(P, "compose", st.fixed_dictionaries({
    "rows": rows(ROW, min_size=2, max_size=4), "f1": st.floats(0.01, 0.9), "f2": st.floats(0.01, 0.8),
    "pick": st.integers(0, 3)}), 150, 3000,
    "two legs equal one; a source alone equals the batch, in any order; non-trivial: always (>= 2 sources)")
def compose(case, rec):
    rec.nontrivial()
    r = case["rows"]
    m1, m2, a, b, e, tm = si(r)
    t1 = case["f1"] * tm
    t2 = case["f2"] * (tm - t1)
    kw = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, n_step=3, avoid_merger=False, output_vars=["ecc", "a"])
    e1, a1 = evol.evol_ecc(ecc_i=e, a_i=a * u.m, t_evol=t1 * u.s, **kw)
    e2, a2 = evol.evol_ecc(ecc_i=e1[:, -1], a_i=a1[:, -1], t_evol=t2 * u.s, **kw)
    ew, aw = evol.evol_ecc(ecc_i=e, a_i=a * u.m, t_evol=(t1 + t2) * u.s, **kw)
    close(e2[:, -1], ew[:, -1], 1e-3, what="two legs vs one (eccentricity)")
    close(val(a2[:, -1], "m"), val(aw[:, -1], "m"), 1e-3, what="two legs vs one (separation)")
    i = case["pick"] % len(r)
    kw.update(m_1=m1[i] * u.kg, m_2=m2[i] * u.kg)
    es, as_ = evol.evol_ecc(ecc_i=e[i], a_i=a[i] * u.m, t_evol=(t1 + t2)[i] * u.s, **kw)
    close(es, ew[i], 1e-7, what="source alone vs in the batch")
    kw.update(m_1=m1[::-1] * u.kg, m_2=m2[::-1] * u.kg)
    er, ar = evol.evol_ecc(ecc_i=e[::-1], a_i=a[::-1] * u.m, t_evol=(t1 + t2)[::-1] * u.s, **kw)
    close(er[::-1], ew, 1e-7, what="sources in reverse order")


@facet(P, "rate", st.fixed_dictionaries({"e": st.lists(ecc(0.99, circ=False, lo=1e-3), min_size=1, max_size=4),
                                         "a": logf(1e6, 1e12), "m1": bh_mass, "m2": bh_mass}), 100, 1500,
       "de_dt against Peters (5.13) written in terms of the separation; all non-trivial")
def rate(case, rec):
    rec.nontrivial()
    m1, m2 = case["m1"] * ref.MSUN, case["m2"] * ref.MSUN
    for e in case["e"]:
        a = case["a"]
        want = -304. / 15 * e * ref.G**3 * m1 * m2 * (m1 + m2) / (ref.C**5 * a**4 * (1 - e * e)**2.5) * (1 + 121. / 304 * e * e)
        got = evol.de_dt(e, 0.0, ref.beta(m1, m2), ref.c0(a, e))
        close(got, want, 1e-8, what="de/dt at e={}".format(e))
