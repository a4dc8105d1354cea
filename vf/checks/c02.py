"""C02 g(n, e), F(e), fn_dot"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_freq, any_mass, close, col, ecc, logf, q, raises, rows, units, val
from legwork import utils

P = "C02"


@facet(P, "fourier", st.fixed_dictionaries({"e": st.one_of(st.just(0.0), st.floats(1e-4, 0.85), logf(1e-6, 0.1)),
                                            "nmax": st.integers(3, 60), "shuffle": st.booleans()}), 200, 4000,
       "random eccentricity; g for all harmonics against the FFT of a sampled Kepler orbit; non-trivial: e > 1e-4")
def fourier(case, rec):
    e, nmax = case["e"], case["nmax"]
    rec.nontrivial(e > 1e-4)
    n = np.arange(1, nmax + 1)
    want = ref.orbit_power_spectrum(e, nmax)
    order = n[::-1] if case["shuffle"] else n
    got = utils.peters_g(order, e)
    close(got, want[order - 1], rtol=1e-9, atol=1e-11 * max(want.max(), 1), what="g(n, e) vs orbit Fourier power")
    check(np.all(got >= -1e-15), "g(n, e) is negative", got=got)
    for k in (1, 2, nmax):
        close(utils.peters_g(k, e), want[k - 1], rtol=1e-9, atol=1e-11 * max(want.max(), 1), what="scalar g(n, e)")


@facet(P, "formula", st.fixed_dictionaries({
    "n": st.lists(st.one_of(st.integers(1, 30), st.integers(1, 3000)), min_size=1, max_size=8),
    "e": st.lists(st.one_of(st.just(0.0), st.floats(0, 0.99), st.floats(0.9, 0.999)), min_size=1, max_size=6)}),
    250, 5000, "random harmonic x eccentricity grids, broadcast both ways; non-trivial: some e > 0 and n != 2")
def formula(case, rec):
    n, e = np.array(case["n"]), np.array(case["e"])
    rec.nontrivial(bool((e > 0).any() and (n != 2).any()))
    rec.label("n>1000" if n.max() > 1000 else "n<=1000", "e>0.9" if e.max() > 0.9 else "e<=0.9")
    want = ref.peters_g(n[np.newaxis, :], e[:, np.newaxis])
    atol = 1e-13 * max(1.0, want.max())
    close(utils.peters_g(n[np.newaxis, :], e[:, np.newaxis]), want, 1e-8, atol, "g on an (e, n) grid")
    close(utils.peters_g(n[:, np.newaxis], e[np.newaxis, :]), want.T, 1e-8, atol, "g on an (n, e) grid")
    close(utils.peters_g(n.astype(float), float(e[0])), want[0], 1e-8, atol, "g for float harmonics")
    circ = utils.peters_g(n, 0.0)
    close(circ, np.where(n == 2, 1.0, 0.0), 1e-12, 1e-14, "g(n, 0)")


@facet(P, "enhancement", st.fixed_dictionaries({"e": st.lists(st.floats(0, 0.95), min_size=1, max_size=4),
                                                "hi": st.floats(0.95, 0.99999)}), 80, 1500,
       "random eccentricities; F(e) closed form and sum over harmonics; non-trivial: e > 0.01")
def enhancement(case, rec):
    e = np.array(case["e"])
    rec.nontrivial(bool((e > 0.01).any()))
    close(utils.peters_f(e), ref.peters_f(e), 1e-12, what="F(e)")
    close(utils.peters_f(case["hi"]), ref.peters_f(case["hi"]), 1e-9, what="F(e) at high e")
    close(utils.peters_f(0), 1.0, 1e-15, what="F(0)")
    for ei in e:
        nmax = int(min(4000, 60 + 80 / (1 - ei)**1.5))
        tot = utils.peters_g(np.arange(1, nmax + 1), ei).sum()
        close(tot, ref.peters_f(ei), 2e-6, what="sum over harmonics of g(n, e={})".format(ei))


@facet(P, "chirp_rate", st.fixed_dictionaries({
    "rows": rows({"m1": any_mass, "m2": any_mass, "f": any_freq, "e": ecc(0.99)}),
    "n": st.integers(1, 500), "units": units("mass", "freq"), "scalar": st.booleans(), "bad": st.integers(-5, 0)}),
    200, 4000, "random sources; fdot_n against Peters; non-trivial: eccentric or n > 2")
def chirp_rate(case, rec):
    r, un = case["rows"], case["units"]
    mc = ref.chirp_mass(col(r, "m1"), col(r, "m2"))
    f, e, n = col(r, "f"), col(r, "e"), case["n"]
    rec.nontrivial(bool((e > 0).any()) or n > 2)
    if case["scalar"]:
        mc, f, e = float(mc[0]), float(f[0]), float(e[0])
    Q = dict(m_c=q(mc, "Msun", un["mass"]), f_orb=q(f, "Hz", un["freq"]), e=e)
    got = utils.fn_dot(n=n, **Q)
    want = ref.fn_dot(np.asarray(mc) * ref.MSUN, f, np.asarray(e), n)
    close(val(got, "Hz/s", "fn_dot"), want, 1e-10, what="fn_dot")
    one = utils.fn_dot(n=1, **Q)
    close(val(got, "Hz/s"), n * val(one, "Hz/s"), 1e-12, what="fn_dot proportional to n")
    raises(ValueError, lambda: utils.fn_dot(n=case["bad"], **Q), "fn_dot with n={}".format(case["bad"]))
    raises(ValueError, lambda: utils.fn_dot(n=np.array([1, 2, case["bad"]]), m_c=1 * u.Msun, f_orb=1 * u.mHz, e=0.1),
           "fn_dot with a bad harmonic in an array")
    if not case["scalar"]:
        ns = np.array([1, 2, n])
        grid = utils.fn_dot(m_c=Q["m_c"][:, None], f_orb=Q["f_orb"][:, None], e=np.asarray(e)[:, None], n=ns[None, :])
        close(val(grid, "Hz/s"), ref.fn_dot(mc[:, None] * ref.MSUN, f[:, None], e[:, None], ns[None, :]), 1e-10,
              what="fn_dot grid")
