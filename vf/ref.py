"""Independent reference implementations (SI floats in, SI floats out).  No LEGWORK code is used here."""
import numpy as np
import astropy.constants as const
import astropy.units as u
from scipy.special import jv
from scipy.integrate import quad
from scipy.optimize import brentq

G = const.G.si.value
C = const.c.si.value
MSUN = u.Msun.to(u.kg)
AU = u.AU.to(u.m)
YR = u.yr.to(u.s)
KPC = u.kpc.to(u.m)


# --- orbits -------------------------------------------------------------------------------------------
def chirp_mass(m1, m2):
    eta = m1 * m2 / (m1 + m2)**2
    return eta**0.6 * (m1 + m2)


def sma(f, m1, m2):
    return np.cbrt(G * (m1 + m2) / (2 * np.pi * f)**2)


def forb(a, m1, m2):
    return np.sqrt(G * (m1 + m2) / a**3) / (2 * np.pi)


def beta(m1, m2):
    return 64.0 / 5.0 * G**3 * m1 * m2 * (m1 + m2) / C**5


def shape_e(e):
    """a(e) / c_0"""
    return e**(12. / 19) / (1 - e**2) * (1 + 121. / 304 * e**2)**(870. / 2299)


def c0(a, e):
    return a / shape_e(e)


# --- gravitational-wave power ------------------------------------------------------------------------
def peters_f(e):
    return (1 + 73. / 24 * e**2 + 37. / 96 * e**4) / ((1 - e) * (1 + e))**3.5


def peters_g(n, e):
    """g(n, e) from three Bessel functions: with x = n e, J' = (J_{n-1} - J_{n+1}) / 2,

    J_{n-2} - J_{n+2} - 2e(J_{n-1} - J_{n+1}) + 2/n J_n  and  J_{n-2} - 2 J_n + J_{n+2}
    """
    n = np.asarray(n, dtype=float)
    e = np.asarray(e, dtype=float)
    x = n * e
    jm2, jm1, j0, jp1, jp2 = jv(n - 2, x), jv(n - 1, x), jv(n, x), jv(n + 1, x), jv(n + 2, x)
    b1 = (jm2 - jp2) - 2 * e * (jm1 - jp1) + 2 * j0 / n
    b2 = jm2 + jp2 - 2 * j0
    return n**4 / 32. * (b1 * b1 + (1 - e) * (1 + e) * b2 * b2 + 4. / 3. * (j0 / n)**2)


def peters_g_sparse(n, e):
    """g on the grid (e, n), skipping the harmonics that are negligible (g < ~1e-40)"""
    out = np.zeros((len(e), len(n)))
    for i, ei in enumerate(e):
        if ei >= 0.999:
            nmax = len(n)
        else:
            # J_n(n e) ~ exp(-n (arccosh(1/e) - sqrt(1-e^2)))
            with np.errstate(divide="ignore"):
                rate = np.arccosh(1 / ei) - np.sqrt(1 - ei**2) if ei > 0 else np.inf
            nmax = int(min(len(n), max(20, 60 / rate + 20))) if np.isfinite(rate) else 20
        out[i, :nmax] = peters_g(n[:nmax], ei)
    return out


def orbit_power_spectrum(e, n_max, n_samples=8192):
    """g(n, e) for n=1..n_max straight from the Fourier series of the quadrupole moment of a Kepler orbit.

    Uses neither Bessel functions nor Peters' closed form: the orbit is sampled in mean anomaly, the
    trace-free quadrupole tensor is Fourier transformed and P_n is summed over its components.
    """
    M = 2 * np.pi * np.arange(n_samples) / n_samples
    E = M + e * np.sin(M)
    for _ in range(100):
        E = E - (E - e * np.sin(E) - M) / (1 - e * np.cos(E))
    x, y = np.cos(E) - e, np.sqrt(1 - e * e) * np.sin(E)
    r2 = x * x + y * y
    comps = [(x * x - r2 / 3, 1), (y * y - r2 / 3, 1), (-r2 / 3, 1), (x * y, 2)]
    n = np.arange(1, n_max + 1)
    p = np.zeros(n_max)
    for q, mult in comps:
        c = np.fft.rfft(q)[1:n_max + 1] / n_samples
        p += mult * np.abs(c)**2
    # <(d^3 Q)^2> per harmonic for omega = a = mu = 1; a circular orbit gives exactly 32 (all in n = 2)
    return 2 * p * n**6.0 / 32.0


def fn_dot(mc, f, e, n):
    return n * 96. / (10 * np.pi) * (G * mc)**(5. / 3) / C**5 * (2 * np.pi * f)**(11. / 3) * peters_f(e)


# --- strain ------------------------------------------------------------------------------------------
def h0(mc, f, e, n, d):
    """(x,) arrays and (z,) harmonics -> (x, z)"""
    mc, f, e, d = (np.asarray(v, dtype=float)[:, None] for v in (mc, f, e, d))
    n = np.asarray(n, dtype=float)[None, :]
    pref = np.sqrt(2**(28. / 3) / 5) * (G * mc)**(5. / 3) / C**4 / d * (np.pi * f)**(2. / 3)
    return pref * np.sqrt(peters_g(n, e)) / n


def hc2(mc, f, e, n, d):
    """characteristic strain squared through h_c^2 = f_n^2 / fdot_n * h_0^2"""
    mc, f, e, d = (np.asarray(v, dtype=float)[:, None] for v in (mc, f, e, d))
    n = np.asarray(n, dtype=float)[None, :]
    pref = (2**(28. / 3) / 5) * (G * mc)**(10. / 3) / C**8 / d**2 * (np.pi * f)**(4. / 3)
    h02 = pref * peters_g(n, e) / n**2
    return (n * f)**2 / fn_dot(mc, f, e, n) * h02


# --- detector response -------------------------------------------------------------------------------
def lisa_orbit_average(theta, phi, n_orb=32):
    """<D+^2>, <Dx^2>, <D+Dx> averaged over one LISA orbit in the low frequency limit.

    The initial orientation of the constellation (3 pi / 4) is the one Cornish & Larson's Eq. 44 assumes.

    Built from the geometry (three spacecraft on inclined Keplerian orbits, arm vectors to first order in
    the orbital eccentricity), not from the closed form.  theta, phi: ecliptic colatitude and longitude.
    """
    alpha = 2 * np.pi * np.arange(n_orb) / n_orb
    pos = []
    for k in range(3):
        b = 2 * np.pi * k / 3 + 3 * np.pi / 4
        x = 0.5 * (np.cos(2 * alpha - b) - 3 * np.cos(b))
        y = 0.5 * (np.sin(2 * alpha - b) - 3 * np.sin(b))
        z = -np.sqrt(3) * np.cos(alpha - b)
        pos.append(np.array([x, y, z]))
    r12, r13 = pos[1] - pos[0], pos[2] - pos[0]
    r12 = r12 / np.linalg.norm(r12, axis=0)
    r13 = r13 / np.linalg.norm(r13, axis=0)
    D = (np.einsum("it,jt->ijt", r12, r12) - np.einsum("it,jt->ijt", r13, r13))
    uu = np.array([np.cos(theta) * np.cos(phi), np.cos(theta) * np.sin(phi), -np.sin(theta)])
    vv = np.array([np.sin(phi), -np.cos(phi), 0.0])
    ep = np.outer(uu, uu) - np.outer(vv, vv)
    ec = np.outer(uu, vv) + np.outer(vv, uu)
    dp = np.einsum("ijt,ij->t", D, ep)
    dc = np.einsum("ijt,ij->t", D, ec)
    return (dp**2).mean(), (dc**2).mean(), (dp * dc).mean()


def D2(theta, phi):
    """closed forms, Cornish & Larson (2003) Eq. 44"""
    c = np.cos(theta)
    s2 = np.sin(2 * phi)
    dp = 3. / 2048 * (487 + 158 * c**2 + 7 * c**4 - 162 * s2**2 * (1 + c**2)**2)
    dx = 3. / 512 * (120 * np.sin(theta)**2 + c**2 + 162 * s2**2 * c**2)
    px = 243. / 512 * c * s2 * np.cos(2 * phi) * (1 + c**2)
    return dp, dx, px


def F2(theta, phi, psi):
    dp, dx, px = D2(theta, phi)
    c, s = np.cos(2 * psi), np.sin(2 * psi)
    return (0.25 * (c * c * dp - 2 * s * c * px + s * s * dx),
            0.25 * (c * c * dx + 2 * s * c * px + s * s * dp))


def amp_mod(lat, lon, psi, inc):
    fp, fc = F2(np.pi / 2 - lat, lon, psi)
    return 1.25 * (((1 + np.cos(inc)**2) / 2)**2 * fp + np.cos(inc)**2 * fc)


# --- merger times and evolution ----------------------------------------------------------------------
def _integrand_x(x):
    # substitution e = x^p with p = 19/48: e^(29/19) de = (19/48) dx
    e2 = x**(2 * 19. / 48)
    return 19. / 48 * (1 + 121. / 304 * e2)**(1181. / 2299) / (1 - e2)**1.5


def merge_integral(e):
    """int_0^e  e^(29/19) [1 + 121/304 e^2]^(1181/2299) / (1-e^2)^(3/2) de"""
    if e <= 0:
        return 0.0
    if e <= 0.9:
        return quad(_integrand_x, 0, e**(48. / 19), epsabs=0, epsrel=1e-12, limit=200)[0]
    lo = quad(_integrand_x, 0, 0.9**(48. / 19), epsabs=0, epsrel=1e-12, limit=200)[0]
    # e = cos(v): de/(1-e^2)^(3/2) = -dv / sin^2 v, then w = 1/tan(v): dw = -dv/sin^2 v

    def f(w):
        e2 = w * w / (1 + w * w)
        return e2**(29. / 38) * (1 + 121. / 304 * e2)**(1181. / 2299)
    w0, w1 = 0.9 / np.sqrt(1 - 0.81), e / np.sqrt((1 - e) * (1 + e))
    return lo + quad(f, w0, w1, epsabs=0, epsrel=1e-12, limit=200)[0]


def t_merge_circ(a, b):
    return a**4 / (4 * b)


def t_merge(a, e, b):
    """exact Peters (1964) merger time"""
    if e == 0:
        return t_merge_circ(a, b)
    return 12. / 19 * c0(a, e)**4 / b * merge_integral(e)


def t_merge_branch(a, e, b, small=0.15, large=1 - 1e-4):
    """documented branches: exact, small-e and large-e approximations"""
    if e == 0:
        return t_merge_circ(a, b)
    pref = c0(a, e)**4 / (4 * b) * e**(48. / 19)
    if e < small:
        return pref
    if e > large:
        return pref * 768. / 425 / np.sqrt((1 - e) * (1 + e)) * (1 + 121. / 304 * e * e)**(3480. / 2299)
    return t_merge(a, e, b)


def ecc_at(a, e, b, t):
    """eccentricity after time t: invert the (exact) time-to-merger integral"""
    pref = 12. / 19 * c0(a, e)**4 / b
    target = merge_integral(e) - t / pref
    if target <= 0:
        return 0.0
    return brentq(lambda x: merge_integral(x) - target, 0.0, e, xtol=1e-15, rtol=1e-13, maxiter=300)


def f_circ_after(f, mc, t, e=0.0):
    """orbital frequency after t for df/dt = K f^(11/3) F(e); None if merged"""
    K = 48. / (5 * np.pi) * (G * mc)**(5. / 3) / C**5 * (2 * np.pi)**(11. / 3) * peters_f(e)
    inner = f**(-8. / 3) - 8. / 3 * K * t
    return inner


# --- power spectral densities ------------------------------------------------------------------------
_R = {}


def response(f, fstar, overlay):
    from scipy.interpolate import CubicSpline
    import os
    key = os.path.join(overlay, "legwork", "R.npy")
    if key not in _R:
        x, r = np.load(key, allow_pickle=True)
        _R[key] = (np.asarray(x, float), CubicSpline(np.asarray(x, float), np.asarray(r, float),
                                                     bc_type="not-a-knot"))
    x, spl = _R[key]
    return spl(np.asarray(f) / fstar), x.min() * fstar, x.max() * fstar


def response_approx(f, fstar):
    return 0.3 / (1 + 0.6 * (f / fstar)**2)


def conf_robson19(f, t_yr):
    tab = {0.5: (0.133, 243., 482., 917., 2.58e-3), 1.0: (0.171, 292., 1020., 1680., 2.15e-3),
           2.0: (0.165, 299., 611., 1340., 1.73e-3), 4.0: (0.138, -221., 521., 1680., 1.13e-3)}
    al, be, ka, ga, fk = tab[min(tab, key=lambda k: (abs(k - t_yr), k))]
    return 9e-45 * f**(-7. / 3) * 2 * np.exp(-f**al + be * f * np.sin(ka * f) - np.logaddexp(0, -2 * ga * (fk - f)))


def conf_huang20(f, t_yr):
    tab = {0.5: (-18.6, -1.22, 0.009, -1.87, 0.65, 3.6, -4.6), 1.0: (-18.6, -1.13, -0.945, -1.02, 4.05, -4.5, -0.5),
           2.0: (-18.6, -1.45, 0.315, -1.19, -4.48, 10.8, -9.4), 4.0: (-18.6, -1.43, -0.687, 0.24, -0.15, -1.8, -3.2),
           5.0: (-18.6, -1.51, -0.71, -1.13, -0.83, 13.2, -19.1)}
    co = tab[min(tab, key=lambda k: (abs(k - t_yr), k))]
    x = np.log10(f / 1e-3)
    with np.errstate(over="ignore"):
        val = 10**(2 * np.polynomial.polynomial.polyval(x, co))
    return np.where((f < 1e-4) | (f > 1.0), 0.0, val)


def conf_thiele21(f):
    x = np.log10(f)
    co = [-540.315450, -554.061115, -233.748834, -44.021504, -3.112634]
    with np.errstate(over="ignore", under="ignore"):
        return 10**np.polynomial.polynomial.polyval(x, co) * 4 * YR


def conf_karnesis21(f, t_yr):
    f1 = t_yr**(-0.15) * 10**(-2.72)
    fk = t_yr**(-0.37) * 10**(-2.49)
    return 0.5 * 1.15e-44 * f**(-7. / 3) * np.exp(-(f / f1)**1.56) * (1 + np.tanh((fk - f) / 0.00067))


def confusion(model, f, t_yr):
    if model is None:
        return np.zeros_like(f)
    if model == "robson19":
        return conf_robson19(f, t_yr)
    if model == "huang20":
        return conf_huang20(f, t_yr)
    if model == "thiele21":
        return conf_thiele21(f)
    if model == "karnesis21":
        return conf_karnesis21(f, t_yr)
    raise KeyError(model)


def psd_lisa(f, t_yr=4., L=2.5e9, approx=False, model="karnesis21", overlay=None, cn=None):
    """reference LISA PSD; nan where this reference makes no claim (response table exceeded)"""
    f = np.asarray(f, dtype=float)
    band = (f >= 1e-7) & (f <= 2.0)
    ff = np.where(band, f, 1e-3)
    fs = C / (2 * np.pi * L)
    if approx:
        R = response_approx(ff, fs)
    else:
        R, lo, hi = response(ff, fs, overlay)
        R = np.where(ff > hi, np.nan, R)
    P_oms = 2.25e-22 * (1 + (2e-3 / ff)**4)
    P_acc = 9e-30 * (1 + (0.4e-3 / ff)**2) * (1 + (ff / 8e-3)**4)
    base = (P_oms + 2 * (1 + np.cos(ff / fs)**2) * P_acc / (2 * np.pi * ff)**4) / L**2 / R
    noise = confusion(model, ff, t_yr) if cn is None else cn(ff, t_yr)
    return np.where(band, base + noise, np.inf)


def psd_tianqin(f, t_yr=5., L=np.sqrt(3) * 1e8, model="huang20", cn=None):
    f = np.asarray(f, dtype=float)
    fs = C / (2 * np.pi * L)
    base = 10. / 3 / L**2 * (4e-30 / (2 * np.pi * f)**4 * (1 + 1e-4 / f) + 1e-24) * (1 + 0.6 * (f / fs)**2)
    return base + (confusion(model, f, t_yr) if cn is None else cn(f, t_yr))


def psd_decigo(f, t_yr=4., model="karnesis21", cn=None, lo=1e-3, hi=1e2):
    f = np.asarray(f, dtype=float)
    band = (f >= lo) & (f <= hi)
    ff = np.where(band, f, 1e-2)
    y = 1 + (ff / 7.36)**2
    base = 6.53e-48 * y + 4.8e-51 / ff**4 / y + 5.33e-52 / ff**4
    noise = confusion(model, ff, t_yr) if cn is None else cn(ff, t_yr)
    return np.where(band, base + noise, np.inf)


AUTO = {"LISA": (4., 2.5e9, "karnesis21"), "TianQin": (5., np.sqrt(3) * 1e8, "huang20"),
        "DECIGO": (4., None, "karnesis21")}


def psd(f, instrument="LISA", t_yr=None, L=None, approx=False, model="auto", overlay=None, cn=None):
    t0, L0, m0 = AUTO[instrument]
    t_yr = t0 if t_yr is None else t_yr
    L = L0 if L is None else L
    model = m0 if model == "auto" else model
    if instrument == "LISA":
        return psd_lisa(f, t_yr, L, approx, model, overlay, cn)
    if instrument == "TianQin":
        return psd_tianqin(f, t_yr, L, model, cn)
    return psd_decigo(f, t_yr, model, cn)
