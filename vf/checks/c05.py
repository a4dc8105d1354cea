"""C05 merger times"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_freq, any_mass, bh_mass, close, col, ecc, logf, q, raises, rows, units, val
from legwork import evol

P = "C05"
E_ANY = st.one_of(ecc(0.95), ecc(0.95), st.floats(0.95, 0.9999), st.floats(0.9999, 0.9999999),
                  st.sampled_from([0.0, 1e-4, 0.15, 0.1499999, 1 - 1e-4]))
ROW = {"m1": any_mass, "m2": any_mass, "f": any_freq, "e": E_ANY}
GYR = u.Gyr.to(u.s)


def si(r):
    m1, m2 = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN
    return m1, m2, ref.sma(col(r, "f"), m1, m2), ref.beta(m1, m2), col(r, "e")


def inputs(case, r, mode, scalar):
    un = case["units"]
    m1, m2, a, b, e = si(r)
    kw = {}
    if mode in ("mf", "ma"):
        kw.update(m_1=q(m1, "kg", un["mass"]), m_2=q(m2, "kg", un["mass"]))
    if mode in ("ba", "bf"):
        kw["beta"] = (b * u.m**4 / u.s).to(u.Unit(un["len"])**4 / u.Unit(un["time"]))
    if mode == "bf":
        kw.update(m_1=q(m1, "kg", un["mass"]), m_2=q(m2, "kg", un["mass"]))
    if mode in ("mf", "bf"):
        kw["f_orb_i"] = q(col(r, "f"), "Hz", un["freq"])
    if mode in ("ma", "ba"):
        kw["a_i"] = q(a, "m", un["len"])
    if scalar:
        kw = {k: v[0] for k, v in kw.items()}
        e = float(e[0])
    return kw, e


MODE = st.sampled_from(["mf", "ma", "ba", "bf"])
BASE = {"rows": rows(ROW), "units": units("mass", "freq", "len", "time"), "mode": MODE}
TOL = {"small": st.one_of(st.just(0.15), st.just(0.15), st.floats(0.0, 0.6)),
       "large": st.one_of(st.just(1 - 1e-4), st.just(1 - 1e-4), st.floats(0.7, 0.99999))}


def expected(r, case):
    m1, m2, a, b, e = si(r)
    return np.array([ref.t_merge_branch(x, y, z, case["small"], case["large"]) for x, y, z in zip(a, e, b)])


def branch(e, case):
    return ("circ" if e == 0 else "small" if e < case["small"] else "large" if e > case["large"] else "exact")


@facet(P, "branches", st.fixed_dictionaries(dict(BASE, **TOL)), 300, 4000,
       "arrays of mixed eccentricities, all input modes/units, random tolerances, against the quadrature "
       "reference; non-trivial: two different branches present", shards=2)
def branches(case, rec):
    r = case["rows"]
    m1, m2, a, b, e = si(r)
    br = {branch(x, case) for x in e}
    rec.nontrivial(len(br) > 1)
    rec.label(*br)
    want = expected(r, case) / GYR
    kw, ee = inputs(case, r, case["mode"], False)
    got = val(evol.get_t_merge_ecc(ecc_i=ee, small_e_tol=case["small"], large_e_tol=case["large"], **kw), "Gyr", "t_merge")
    close(got, want, 3e-6, what="merger time (array)")
    for i in range(min(len(r), 2)):
        kw, ei = inputs(case, [r[i]], case["mode"], True)
        one = evol.get_t_merge_ecc(ecc_i=ei, small_e_tol=case["small"], large_e_tol=case["large"], **kw)
        close(val(one, "Gyr"), want[i], 3e-6, what="merger time (single source)", )
        close(val(one, "Gyr"), got[i], 1e-9, what="single against array")


@facet(P, "circular", st.fixed_dictionaries({"rows": rows(ROW), "units": units("mass", "freq", "len", "time"),
                                             "mode": MODE, "scalar": st.booleans()}), 300, 4000,
       "circular merger times in all input modes; all non-trivial")
def circular(case, rec):
    rec.nontrivial()
    r = [dict(x, e=0.0) for x in case["rows"]]
    m1, m2, a, b, e = si(r)
    want = a**4 / (4 * b) / GYR
    kw, ee = inputs(case, r, case["mode"], case["scalar"])
    want = want[0] if case["scalar"] else want
    close(val(evol.get_t_merge_circ(**kw), "Gyr"), want, 1e-9, what="circular merger time")
    close(val(evol.get_t_merge_ecc(ecc_i=ee, **kw), "Gyr"), want, 1e-9, what="eccentric function at e=0")
    tiny = 1e-9 if case["scalar"] else np.full(len(r), 1e-9)
    close(val(evol.get_t_merge_ecc(ecc_i=tiny, **kw), "Gyr"), want, 1e-6, what="limit e -> 0")


@facet(P, "fit", st.fixed_dictionaries(dict(BASE, scalar=st.booleans())), 300, 4000,
       "exact=False against the reference: 0.8 % below e=0.99 and 3 % up to 0.9999, branches outside unchanged; "
       "non-trivial: some e in the fit's range")
def fit(case, rec):
    r = case["rows"][:1] if case["scalar"] else case["rows"]
    m1, m2, a, b, e = si(r)
    mid = (e >= 0.15) & (e <= 1 - 1e-4)
    rec.nontrivial(bool(mid.any()))
    kw, ee = inputs(case, r, case["mode"], case["scalar"])
    got = np.atleast_1d(val(evol.get_t_merge_ecc(ecc_i=ee, exact=False, **kw), "Gyr"))
    want = np.array([ref.t_merge_branch(x, y, z) for x, y, z in zip(a, e, b)]) / GYR
    for i in range(len(r)):
        tol = 3e-6 if not mid[i] else (8e-3 if e[i] <= 0.99 else 3.1e-2)
        close(got[i], want[i], tol, what="fitted merger time at e={}".format(e[i]))
        if mid[i]:
            close(np.asarray(evol.t_merge_mandel_fit(e[i])) * a[i]**4 / (4 * b[i]), want[i] * GYR, tol,
                  what="Mandel factor at e={}".format(e[i]))


@facet(P, "accuracy", st.fixed_dictionaries({"e": st.lists(st.floats(0.01, 0.99995), min_size=1, max_size=6)}), 200, 3000,
       "default branches against the exact Peters integral: within the documented ~2 %; all non-trivial")
def accuracy(case, rec):
    rec.nontrivial()
    e = np.array(case["e"])
    a, b = 1e9, ref.beta(ref.MSUN, ref.MSUN)
    want = np.array([ref.t_merge(a, x, b) for x in e])
    got = evol.get_t_merge_ecc(ecc_i=e, a_i=np.full(len(e), a) * u.m, beta=np.full(len(e), b) * u.m**4 / u.s)
    close(val(got, "s"), want, 2.3e-2, what="default merger time vs exact integral")


@facet(P, "monotone", st.fixed_dictionaries({"e": st.lists(E_ANY, min_size=2, max_size=10), "a": logf(1e6, 1e12),
                                             "m1": bh_mass, "m2": bh_mass, "exact": st.booleans()}), 200, 3000,
       "merger time falls with eccentricity at fixed separation (beyond the branch mismatch); non-trivial: >= 2 distinct e")
def monotone(case, rec):
    e = np.unique(case["e"])
    rec.nontrivial(len(e) > 1)
    kw = dict(m_1=np.full(len(e), case["m1"]) * u.Msun, m_2=np.full(len(e), case["m2"]) * u.Msun,
              a_i=np.full(len(e), case["a"]) * u.m)
    t = val(evol.get_t_merge_ecc(ecc_i=e, exact=case["exact"], **kw), "s")
    check(np.all(t > 0) and np.all(np.isfinite(t)), "merger time not positive and finite", t=t)
    m = np.array([ref.t_merge(1e9, x, ref.beta(ref.MSUN, ref.MSUN)) for x in e])
    slack = 0.023 if case["exact"] else 0.05
    for i in range(len(e) - 1):
        if m[i + 1] < m[i] * (1 - 2 * slack):
            check(t[i + 1] < t[i], "merger time grows with eccentricity", e=e[i:i + 2].tolist(), t=t[i:i + 2].tolist())
        same_branch = (e[i] < .15) == (e[i + 1] < .15) and (e[i] > 1 - 1e-4) == (e[i + 1] > 1 - 1e-4)
        if same_branch and case["exact"]:
            check(t[i + 1] <= t[i] * (1 + 3e-6), "merger time grows with eccentricity within a branch", e=e[i:i + 2].tolist())


@facet(P, "containers", st.fixed_dictionaries(dict(BASE, exact=st.booleans())), 30, 300,
       "eccentricities given as a list (which the code accepts) equal the array result; non-trivial: > 1 source")
def containers(case, rec):
    r = case["rows"]
    rec.nontrivial(len(r) > 1)
    kw, ee = inputs(case, r, case["mode"], False)
    want = evol.get_t_merge_ecc(ecc_i=ee, exact=case["exact"], **kw)
    got = evol.get_t_merge_ecc(ecc_i=list(ee), exact=case["exact"], **kw)
    close(val(got, "Gyr"), val(want, "Gyr"), 1e-9, what="merger times for a list of eccentricities")


@facet(P, "jit", st.fixed_dictionaries({"rows": rows(ROW, min_size=3, max_size=6), "exact": st.booleans()}), 10, 60,
       "the compiled integrand (numba on) against the reference; all non-trivial", jit=True)
def compiled(case, rec):
    rec.nontrivial()
    r = case["rows"]
    m1, m2, a, b, e = si(r)
    want = np.array([ref.t_merge_branch(x, y, z) for x, y, z in zip(a, e, b)]) / GYR
    got = val(evol.get_t_merge_ecc(ecc_i=e, m_1=m1 * u.kg, m_2=m2 * u.kg, a_i=a * u.m), "Gyr")
    close(got, want, 3e-6, what="merger time (compiled)")


@facet(P, "missing", st.fixed_dictionaries({"drop": st.sampled_from(["m_1", "m_2", "both", "f", "all"]),
                                            "beta": st.booleans(), "scalar": st.booleans(), "e": E_ANY}), 40, 200,
       "missing masses, separation or frequency give ValueError; all non-trivial")
def missing(case, rec):
    rec.nontrivial()
    s = 1.0 if case["scalar"] else np.ones(2)
    kw = {"m_1": s * u.Msun, "m_2": s * u.Msun, "f_orb_i": s * 1e-3 * u.Hz}
    for k in {"m_1": ["m_1"], "m_2": ["m_2"], "both": ["m_1", "m_2"], "f": ["f_orb_i"],
              "all": ["m_1", "m_2", "f_orb_i"]}[case["drop"]]:
        kw.pop(k)
    if case["beta"]:
        kw["beta"] = s * 1e30 * u.m**4 / u.s       # beta alone cannot replace the separation
    e = case["e"] if case["scalar"] else np.full(2, case["e"])
    raises(ValueError, lambda: evol.get_t_merge_ecc(ecc_i=e, **kw), "get_t_merge_ecc without " + case["drop"])
    raises(ValueError, lambda: evol.get_t_merge_circ(**kw), "get_t_merge_circ without " + case["drop"])


@facet(P, "population", st.fixed_dictionaries(dict({"n": st.sampled_from([110, 150, 300, 1200]), "lo": logf(1e-4, 0.5), "hi": logf(1e-6, 0.3), "seed": st.integers(0, 10**6), "mode": MODE,
                                                   "units": units("mass", "freq", "len", "time"), "circ": st.booleans()}, **TOL)), 12, 120,
       "populations of 110 to 1200 sources with eccentricities up to 1 - 1e-6, against the quadrature reference for 40 of them; all non-trivial")
def population(case, rec):
    rec.nontrivial()
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    e = np.where(rng.rand(n) < 0.5, case["lo"] + (1 - case["hi"] - case["lo"]) * rng.rand(n), 1 - case["hi"]**rng.rand(n))
    e = np.clip(e, 1e-6, 1 - 1e-6)
    if case["circ"]:
        e[rng.rand(n) < 0.2] = 0.0
    r = [dict(m1=10**rng.uniform(-1, 3), m2=10**rng.uniform(-1, 3), f=10**rng.uniform(-6, -1), e=float(x)) for x in e]
    kw, ee = inputs(case, r, case["mode"], False)
    got = val(evol.get_t_merge_ecc(ecc_i=ee, small_e_tol=case["small"], large_e_tol=case["large"], **kw), "Gyr", "t_merge")
    check(got.shape == (n,), "merger times: shape", got=got.shape)
    pick = sorted(set(rng.randint(0, n, 38).tolist() + [int(e.argmax()), int(e.argmin())]))
    close(got[pick], expected([r[i] for i in pick], case) / GYR, 3e-6, what="merger time in a population")
