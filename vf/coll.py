"""Generated source collections, shared by the checks of the Source class"""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from . import ref
from .gen import bh_mass, col, ecc, logf, mass, q, structured, units

TOL_E = "tol"       # stands for "an eccentricity exactly at the collection's threshold"


def row(hi=0.94, x_lo=0.6, circ=None, tol=False):
    """one source, given by its frequency or by its time to merger ('x', yr)"""
    e = {None: st.one_of(ecc(hi), ecc(hi, circ=False), st.just(0.0)), True: st.just(0.0), False: ecc(hi, circ=False, lo=1e-4)}[circ]
    if tol:
        e = st.one_of(e, e, e, st.just(TOL_E))
    common = {"e": e, "d": logf(1e-2, 1e5), "w": st.floats(0.1, 9.), "th": st.floats(0.05, np.pi - 0.05), "ph": st.floats(0, 6.28),
              "psi": st.floats(0, np.pi), "inc": st.floats(0, np.pi)}
    by_f = st.fixed_dictionaries(dict(common, m1=mass, m2=mass, f=logf(1e-6, 0.02), x=st.none()))
    by_x = st.fixed_dictionaries(dict(common, m1=logf(0.5, 1e4), m2=logf(0.5, 1e4), f=st.none(),
                                      x=st.one_of(logf(x_lo, 30.), logf(x_lo, 1e4), logf(30., 1e8))))
    return st.one_of(by_f, by_x)


def collection(max_size=5, min_size=1, **kw):
    return members(st.lists(row(**kw), min_size=min_size, max_size=max_size))


def members(lists):
    """(masses and frequency or time to merger belong together)"""
    return structured(lists, together=[("m1", "m2", "f", "x")])


SETTINGS = st.fixed_dictionaries({
    "sc": st.booleans(), "weights": st.booleans(), "use_a": st.sampled_from([False, False, True, True, "both"]), "tol": st.sampled_from([0.05, 0.05, 0.01, 0.1, 0.2, 1e-3]),
    "stat_tol": st.sampled_from([1e-2, 1e-2, 1e-3, 0.1]), "units": units("mass", "freq", "dist", "len")})


def arrays(rws, e_tol=0.05):
    """m1, m2 [Msun], f [Hz], e, d [kpc]"""
    m1, m2, d = col(rws, "m1"), col(rws, "m2"), col(rws, "d")
    e = np.array([e_tol if r["e"] == TOL_E else r["e"] for r in rws], dtype=float)
    f = np.zeros(len(rws))
    for i, r in enumerate(rws):
        if r["x"] is None:
            f[i] = r["f"]
        else:
            a, b = m1[i] * ref.MSUN, m2[i] * ref.MSUN
            f[i] = ref.forb((r["x"] * ref.YR / ref.t_merge(1.0, e[i], ref.beta(a, b)))**0.25, a, b)
    return m1, m2, f, e, d


def sky(rws, frame="barycentrictrueecliptic"):
    """position, inclination, polarisation keyword arguments"""
    pos = SkyCoord(lon=col(rws, "ph") * u.rad, lat=(np.pi / 2 - col(rws, "th")) * u.rad, frame="barycentrictrueecliptic")
    return dict(position=pos, inclination=(col(rws, "inc") * u.rad).to(u.deg), polarisation=col(rws, "psi") * u.rad)


def kwargs(rws, s, with_sky=False, e_tol=0.05):
    """constructor arguments"""
    un = s["units"]
    m1, m2, f, e, d = arrays(rws, e_tol)
    kw = dict(m_1=q(m1, "Msun", un["mass"]), m_2=q(m2, "Msun", un["mass"]), ecc=e, dist=q(d, "kpc", un["dist"]),
              gw_lum_tol=s["tol"], stat_tol=s["stat_tol"], interpolate_g=False, interpolate_sc=s["sc"])
    if s["use_a"]:
        # (when both are given the frequency takes precedence over the separation)
        kw["a"] = q(ref.sma(f, m1 * ref.MSUN, m2 * ref.MSUN) * (1.7 if s["use_a"] == "both" else 1.), "m", un["len"])
    if s["use_a"] is not True:
        kw["f_orb"] = q(f, "Hz", un["freq"])
    if s["weights"]:
        kw["weights"] = col(rws, "w")
    if with_sky:
        kw.update(sky(rws))
    return kw


def make(rws, s, klass=None, with_sky=False, **over):
    from legwork import source
    klass = klass or source.Source
    np.random.seed(7)
    out = klass(**dict(kwargs(rws, s, with_sky), **over))
    if any(r["e"] == TOL_E for r in rws):
        out.ecc = arrays(rws, float(out.ecc_tol))[3]
    return out


def stationary_margin(m1, m2, f, e, t, tol):
    """t over the span in which the frequency grows by the tolerance (stationary if <= 1)"""
    mc = ref.chirp_mass(m1, m2) * ref.MSUN
    K = 48. / (5 * np.pi) * (ref.G * mc)**(5. / 3) / ref.C**5 * (2 * np.pi)**(11. / 3) * ref.peters_f(e)
    tc = f**(-8. / 3) / (8. / 3 * K)
    return t / ((1 - (1 + tol)**(-8. / 3)) * tc)
