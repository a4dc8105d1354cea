"""C04 strain amplitudes"""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_dist, any_freq, any_mass, close, col, ecc, logf, q, raises, rows, same, units
from legwork import strain, utils

P = "C04"
ROW = {"m1": any_mass, "m2": any_mass, "f": any_freq, "e": st.one_of(ecc(0.98), ecc(0.98), st.floats(0.9, 0.9999)), "d": any_dist,
       "th": st.floats(0.01, np.pi - 0.01), "ph": st.floats(0, 2 * np.pi), "psi": st.floats(0, np.pi),
       "inc": st.floats(0, np.pi)}
HARM = st.one_of(st.integers(1, 40), st.lists(st.one_of(st.integers(1, 12), st.integers(1, 800)), min_size=1,
                                              max_size=7))
NKIND = st.sampled_from(["list", "array", "float"])


def n_arg(n, kind):
    if isinstance(n, int):
        return {"list": n, "array": np.array([n]), "float": float(n)}[kind]
    return {"list": list(n), "array": np.array(n), "float": np.array(n, dtype=float)}[kind]


def sky(r, scalar):
    lat, lon = np.pi / 2 - col(r, "th"), col(r, "ph")
    psi, inc = col(r, "psi"), col(r, "inc")
    mod = ref.amp_mod(lat, lon, psi, inc)
    if scalar:
        lat, lon, psi, inc = lat[0], lon[0], psi[0], inc[0]
    return mod, dict(position=SkyCoord(lat=lat * u.rad, lon=lon * u.rad, frame="barycentrictrueecliptic"),
                     polarisation=(psi * u.rad).to(u.deg), inclination=inc * u.rad)


@facet(P, "formula", st.fixed_dictionaries({
    "rows": rows(ROW), "n": HARM, "nkind": NKIND, "units": units("mass", "freq", "dist"), "scalar": st.booleans(),
    "sky": st.booleans()}), 300, 6000,
       "random sources x harmonic lists (any order, repeats), (x,) inputs, optional sky position; "
       "non-trivial: more than one source or harmonic, or a position")
def formula(case, rec):
    r, un, scalar = case["rows"], case["units"], case["scalar"]
    if scalar:
        r = r[:1]
    n = n_arg(case["n"], case["nkind"])
    nn = np.atleast_1d(np.asarray(case["n"]))
    mc, f, e, d = ref.chirp_mass(col(r, "m1"), col(r, "m2")), col(r, "f"), col(r, "e"), col(r, "d")
    rec.nontrivial(len(r) > 1 or len(nn) > 1 or case["sky"])
    rec.label("scalar" if scalar else "array", "sky" if case["sky"] else "averaged", "n:" + case["nkind"])
    w0 = ref.h0(mc * ref.MSUN, f, e, nn, d * ref.KPC)
    wc = np.sqrt(ref.hc2(mc * ref.MSUN, f, e, nn, d * ref.KPC))
    kw = {}
    if case["sky"]:
        mod, kw = sky(r, scalar)
        w0, wc = w0 * np.sqrt(mod)[:, None], wc * np.sqrt(mod)[:, None]
    a = [mc, f, e, d]
    if scalar:
        a = [float(x[0]) for x in a]
    Q = dict(m_c=q(a[0], "Msun", un["mass"]), f_orb=q(a[1], "Hz", un["freq"]), ecc=a[2], n=n,
             dist=q(a[3], "kpc", un["dist"]))
    h0, hc = strain.h_0_n(**Q, **kw), strain.h_c_n(**Q, **kw)
    # g(n, e) can cancel to ~1e-16 of its largest value: allow sqrt of that
    top = max(1.0, ref.peters_g(nn[None, :], e[:, None]).max())
    ulp = 1e-7 * np.sqrt(top)
    scale0 = ref.h0(mc * ref.MSUN, f, 0 * e, [2], d * ref.KPC)[:, 0]
    for i in range(len(r)):
        close(h0[i], w0[i][None, :], 1e-8, ulp * scale0[i] * 2 / nn.min(), "h_0_n of source {}".format(i))
        scl = np.sqrt(ref.hc2(mc * ref.MSUN, f, 0 * e, [2], d * ref.KPC))[i, 0] * np.sqrt(2 / ref.peters_f(e[i]))
        close(hc[i], wc[i][None, :], 1e-8, ulp * scl, "h_c_n of source {}".format(i))
    check(h0.shape == (len(r), 1, len(nn)) and hc.shape == h0.shape, "strain shape", h0=h0.shape, hc=hc.shape)
    check(not isinstance(h0, u.Quantity) and not isinstance(hc, u.Quantity), "strain should be a plain array")


@facet(P, "timesteps", st.fixed_dictionaries({
    "rows": rows(ROW, max_size=4), "ny": st.integers(1, 5), "g": st.lists(st.floats(0.3, 3.), min_size=20, max_size=20),
    "ee": st.lists(st.floats(0, 0.95), min_size=20, max_size=20), "n": HARM, "units": units("freq"), "sky": st.booleans()}),
    150, 3000, "2D (source, timestep) frequencies and eccentricities; non-trivial: >= 2 sources and >= 2 timesteps")
def timesteps(case, rec):
    r, ny = case["rows"], case["ny"]
    x = len(r)
    rec.nontrivial(x > 1 and ny > 1)
    nn = np.atleast_1d(np.asarray(case["n"]))
    mc, d = ref.chirp_mass(col(r, "m1"), col(r, "m2")), col(r, "d")
    f = col(r, "f")[:, None] * np.array(case["g"])[:x * ny].reshape(x, ny)
    e = np.array(case["ee"])[:x * ny].reshape(x, ny)
    kw, mod = {}, np.ones(x)
    if case["sky"]:
        mod, kw = sky(r, False)
    args = (mc * u.Msun, q(f, "Hz", case["units"]["freq"]), e, case["n"], d * u.kpc)
    h0, hc = strain.h_0_n(*args, **kw), strain.h_c_n(*args, **kw)
    check(h0.shape == (x, ny, len(nn)) and hc.shape == h0.shape, "strain shape", h0=h0.shape, hc=hc.shape)
    for j in range(ny):
        w0 = ref.h0(mc * ref.MSUN, f[:, j], e[:, j], nn, d * ref.KPC) * np.sqrt(mod)[:, None]
        wc2 = ref.hc2(mc * ref.MSUN, f[:, j], e[:, j], nn, d * ref.KPC) * mod[:, None]
        s0 = ref.h0(mc * ref.MSUN, f[:, j], 0 * e[:, j], [2], d * ref.KPC)
        sc = ref.hc2(mc * ref.MSUN, f[:, j], 0 * e[:, j], [2], d * ref.KPC)
        for i in range(x):
            top = max(1.0, ref.peters_g(nn, e[i, j]).max())
            close(h0[i, j]**2, w0[i]**2, 2e-8, 1e-13 * top * s0[i, 0]**2, "h_0 at source {} time {}".format(i, j))
            close(hc[i, j]**2, wc2[i], 2e-8, 1e-13 * top * sc[i, 0], "h_c at source {} time {}".format(i, j))


@facet(P, "relations", st.fixed_dictionaries({
    "rows": rows(ROW), "n": st.lists(st.integers(1, 30), min_size=1, max_size=5), "k": logf(1e-3, 1e3)}), 120, 2500,
    "metamorphic relations on random sources; non-trivial: eccentric and n != 2 present")
def relations(case, rec):
    r, n, k = case["rows"], np.array(case["n"]), case["k"]
    mc, f, e, d = ref.chirp_mass(col(r, "m1"), col(r, "m2")) * u.Msun, col(r, "f") * u.Hz, col(r, "e"), col(r, "d") * u.kpc
    rec.nontrivial(bool((e > 0).any() and (n != 2).any()))
    h0, hc = strain.h_0_n(mc, f, e, n, d), strain.h_c_n(mc, f, e, n, d)
    close(strain.h_0_n(mc, f, e, n, k * d) * k, h0, 1e-12, 1e-60, "h_0 scales as 1/distance")
    close(strain.h_c_n(mc, f, e, n, k * d) * k, hc, 1e-12, 1e-60, "h_c scales as 1/distance")
    fd = utils.fn_dot(mc[:, None], f[:, None], e[:, None], n[None, :])
    ratio = ((n[None, :] * f[:, None])**2 / fd).decompose().value
    close(hc[:, 0]**2, ratio * h0[:, 0]**2, 1e-10, 1e-120, "h_c^2 = f_n^2 / fdot_n h_0^2")
    mod, kw = sky(r, False)
    for fn, plain in ((strain.h_0_n, h0), (strain.h_c_n, hc)):
        close(fn(mc, f, e, n, d, **kw), plain * np.sqrt(mod)[:, None, None], 1e-9, 1e-12 * plain.max(), "modulated strain")


@facet(P, "interp_g", st.fixed_dictionaries({
    "rows": rows(ROW, max_size=4), "n": st.lists(st.integers(1, 9), min_size=1, max_size=5), "neg": st.integers(1, 9),
    "ny": st.integers(1, 3), "scale": st.one_of(st.just(1.0), logf(1e-25, 1e5)), "dip": logf(1e-20, 1.)}), 80, 1000,
    "strain with a supplied g(n, e) that returns an arbitrary function incl. negative values; all non-trivial")
def interp_g(case, rec):
    r, n, neg = case["rows"], np.array(case["n"]), case["neg"]
    rec.nontrivial()

    def g(n, e):
        n, e = np.broadcast_arrays(n, e)
        return np.where(n == neg, -case["dip"], case["scale"] * (0.2 + n * 0.1 + e))
    mc, d = ref.chirp_mass(col(r, "m1"), col(r, "m2")), col(r, "d")
    f = col(r, "f")[:, None] * np.arange(1, case["ny"] + 1)
    e = np.repeat(col(r, "e")[:, None], case["ny"], axis=1) / np.arange(1, case["ny"] + 1)
    want_g = np.maximum(g(n[None, None, :], e[:, :, None]), 0)
    for j in range(case["ny"]):
        m, dd, ff = mc[:, None] * ref.MSUN, d[:, None] * ref.KPC, f[:, j][:, None]
        w0 = np.sqrt(2**(28. / 3) / 5 * want_g[:, j]) / n * (ref.G * m)**(5. / 3) / ref.C**4 / dd * (np.pi * ff)**(2. / 3)
        rate = ref.fn_dot(m, ff, e[:, j][:, None], n[None, :])
        wc = np.sqrt((n * ff)**2 / rate) * w0
        for fn, w in ((strain.h_0_n, w0), (strain.h_c_n, wc)):
            got = fn(mc * u.Msun, f * u.Hz, e, n, d * u.kpc, interpolated_g=g)
            check(not np.isnan(got).any(), "NaN strain from a negative interpolated g(n, e)")
            close(got[:, j], w, 1e-9, what=fn.__name__ + " with a supplied g(n, e)")


@facet(P, "bad_harmonics", st.fixed_dictionaries({
    "n": st.lists(st.integers(1, 20), min_size=0, max_size=4), "bad": st.one_of(st.integers(-10, 0), st.floats(-3, 0.999)),
    "at": st.integers(0, 4), "kind": st.sampled_from(["list", "array", "scalar"])}), 60, 600,
    "a harmonic below 1 at a random place in the list; all non-trivial")
def bad_harmonics(case, rec):
    rec.nontrivial()
    n = list(case["n"])
    n.insert(min(case["at"], len(n)), case["bad"])
    n = case["bad"] if case["kind"] == "scalar" else (np.array(n) if case["kind"] == "array" else n)
    a = dict(m_c=[1., 2.] * u.Msun, f_orb=[1e-3, 2e-3] * u.Hz, ecc=np.array([0.1, 0.5]), dist=[1., 1.] * u.kpc)
    for fn in (strain.h_0_n, strain.h_c_n):
        raises(ValueError, lambda: fn(n=n, **a), "{} with harmonic {}".format(fn.__name__, case["bad"]))
        ok = fn(n=[1, 2], **a)
        same(fn(n=[1, 2], **a), ok, "repeat of the valid call")
