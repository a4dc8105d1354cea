"""C09 stationarity and the frequency evolution behind it"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_freq, any_mass, close, col, ecc, logf, q, raises, rows, unit, units, val
from legwork import evol

P = "C09"
# chosen through log10 of the fraction of the (fixed eccentricity) coalescence time that passes
ROW = {"m1": any_mass, "m2": any_mass, "f": any_freq, "e": st.one_of(ecc(0.98), ecc(0.98), st.floats(0.9, 0.99999)), "t": logf(1e-6, 2.)}
FR = st.one_of(logf(1e-6, 10.), st.floats(0.01, 0.99), st.floats(0.9, 1.1))


def rate(r):
    """coalescence time at fixed eccentricity"""
    m1, m2 = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN
    mc = ref.chirp_mass(m1, m2)
    K = 48. / (5 * np.pi) * (ref.G * mc)**(5. / 3) / ref.C**5 * (2 * np.pi)**(11. / 3) * ref.peters_f(col(r, "e"))
    return m1, m2, mc, col(r, "f")**(-8. / 3) / (8. / 3 * K)


BASE = {"rows": rows(ROW), "fr": FR, "units": units("mass", "freq", "time"), "scalar": st.booleans(),
        "pick": st.integers(0, 5)}


@facet(P, "frequency", st.fixed_dictionaries(dict(BASE, merge_f=st.one_of(st.none(), logf(1e-3, 1e6)), noecc=st.booleans(),
                                                  each=st.sampled_from(["one", "each", "own"]))),
       300, 6000, "random sources and times; final frequency against the chirp law, merged value after coalescence; "
       "non-trivial: some source inspirals and changes by > 1e-6")
def frequency(case, rec):
    r = case["rows"][:1] if case["scalar"] else case["rows"]
    if case["noecc"]:
        r = [dict(x, e=0.0) for x in r]
    m1, m2, mc, tc = rate(r)
    f, e, un = col(r, "f"), col(r, "e"), case["units"]
    t = col(r, "t") * tc[0] if case["each"] == "own" else case["fr"] * (tc if case["each"] == "each" else tc[case["pick"] % len(r)])
    x = 1 - t / tc
    merged, unsure = x < 0, np.abs(x) < 1e-9
    mf = 1e9 if case["merge_f"] is None else case["merge_f"]
    want = np.where(merged, mf, f * np.abs(x)**(-3. / 8))
    rec.nontrivial(bool((~merged & (t / tc > 1e-6)).any()))
    rec.label("scalar" if case["scalar"] else "array", *(["merged"] if merged.any() else []))
    kw = dict(f_orb_i=q(f, "Hz", un["freq"]), m_c=q(mc, "kg", un["mass"]), t_evol=q(t, "s", un["time"]), ecc_i=e)
    if case["scalar"]:
        kw = {k: (v[0] if np.ndim(v) else v) for k, v in kw.items()}
        kw["ecc_i"] = float(e[0])
    if case["noecc"]:
        kw.pop("ecc_i")
    if case["merge_f"] is not None:
        kw["merge_f"] = q(mf, "Hz", un["freq"])
    got = val(evol.evolve_f_orb_circ(**kw), "Hz", "final frequency")
    if case["scalar"]:
        check(np.ndim(got) == 0, "a single source should give a single frequency", got=got)
        got = np.atleast_1d(got)
    ok = ~unsure
    # relative error of |x|^(-3/8) grows near coalescence
    close(got[ok], want[ok], 1e-9 + 1e-12 / np.abs(x[ok]).min(initial=1.0), what="evolved frequency")


TOLS = st.one_of(st.just(None), logf(1e-6, 10.), st.sampled_from([1e-2, 0.1, 0.5]))


@facet(P, "decision", st.fixed_dictionaries(dict(BASE, tol=TOLS, near=st.one_of(st.none(), st.floats(-0.05, 0.05)), each=st.booleans(),
                                                 mode=st.sampled_from(["m", "mc", "both"]))),
       500, 10000, "random sources, spans and tolerances incl. spans within 5 % of the deciding one; "
       "non-trivial: within a factor 2 of the boundary, or both outcomes present")
def decision(case, rec):
    r = case["rows"][:1] if case["scalar"] else case["rows"]
    m1, m2, mc, tc = rate(r)
    f, e, un = col(r, "f"), col(r, "e"), case["units"]
    tol = 1e-2 if case["tol"] is None else case["tol"]
    i = case["pick"] % len(r)
    limit = (1 - (1 + tol)**(-8. / 3)) * tc            # span at which the growth equals the tolerance
    t = case["fr"] * tc[i] if case["near"] is None else limit[i] * (1 + case["near"])
    if case["each"]:
        t = col(r, "t") * 0.1 * tc[i]
    want = t <= limit
    unsure = np.abs(t / limit - 1) < 1e-7
    rec.nontrivial(bool((np.abs(np.log(t / limit)) < 0.7).any() or len(set(want.tolist())) == 2))
    rec.label("stationary" if want.all() else "evolving" if not want.any() else "mixed", case["mode"])
    kw = dict(f_orb_i=q(f, "Hz", un["freq"]), t_evol=q(t, "s", un["time"]), ecc_i=e)
    if case["mode"] in ("m", "both"):
        kw.update(m_1=q(m1, "kg", un["mass"]), m_2=q(m2, "kg", un["mass"]))
    if case["mode"] == "both":
        kw.update(m_1=kw["m_1"] * 2, m_2=kw["m_2"] / 3)        # the chirp mass takes precedence
    if case["mode"] in ("mc", "both"):
        kw["m_c"] = q(mc, "kg", un["mass"])
    if case["tol"] is not None:
        kw["stat_tol"] = tol
    if case["scalar"]:
        kw = {k: (v[0] if np.ndim(v) else v) for k, v in kw.items()}
    got = np.atleast_1d(np.asarray(evol.determine_stationarity(**kw)))
    check(got.dtype == bool and got.shape == want.shape, "stationarity mask", got=got)
    bad = (got != want) & ~unsure
    check(not bad.any(), "stationarity decision", got=got[bad], want=want[bad], t_over_limit=(t / limit)[bad])
    # monotone in span and tolerance
    if not case["scalar"]:
        longer = np.asarray(evol.determine_stationarity(**dict(kw, t_evol=kw["t_evol"] * 1.5)))
        looser = np.asarray(evol.determine_stationarity(**dict(kw, stat_tol=tol * 1.5)))
        check(not (longer & ~got).any(), "a longer span made a source stationary")
        check(not (got & ~looser).any(), "a looser tolerance made a source evolving")
        higher = np.asarray(evol.determine_stationarity(**dict(kw, f_orb_i=kw["f_orb_i"] * 1.1)))
        check(not (higher & ~got).any(), "a higher frequency made a source stationary")
        perm = np.arange(len(r))[::-1]
        kr = {k: (v[perm] if np.ndim(v) else v) for k, v in kw.items()}
        check(np.array_equal(np.asarray(evol.determine_stationarity(**kr))[perm], got), "depends on the order of the sources")


@facet(P, "missing", st.fixed_dictionaries({"have": st.sampled_from(["", "m_1", "m_2"]), "scalar": st.booleans()}), 12, 50,
       "without chirp mass and without both masses: ValueError; all non-trivial")
def missing(case, rec):
    rec.nontrivial()
    s = 1.0 if case["scalar"] else np.ones(2)
    kw = dict(f_orb_i=s * u.mHz, t_evol=4 * u.yr, ecc_i=s * 0.1)
    if case["have"]:
        kw[case["have"]] = s * u.Msun
    raises(ValueError, lambda: evol.determine_stationarity(**kw), "determine_stationarity with only " + case["have"])
