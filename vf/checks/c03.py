"""C03 detector response and amplitude modulation"""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import close, unit
from legwork import utils, strain

P = "C03"
ANG = {"th": st.floats(0, np.pi), "ph": st.floats(0, 2 * np.pi), "psi": st.floats(0, np.pi),
       "inc": st.floats(0, np.pi)}
PTS = st.lists(st.fixed_dictionaries(ANG), min_size=1, max_size=6)


def arr(case, k):
    return np.array([p[k] for p in case["pts"]])


@facet(P, "geometry", st.fixed_dictionaries({"pts": PTS, "unit": unit("ang"), "scalar": st.booleans()}), 300, 6000,
       "random sky positions; responses against the orbit average of the LISA geometry; non-trivial: off-axis (sin 2 phi, cos theta != 0)")
def geometry(case, rec):
    th, ph, psi = (arr(case, k) for k in ("th", "ph", "psi"))
    rec.nontrivial(bool((np.abs(np.sin(2 * ph) * np.cos(th)) > 1e-3).any()))
    want = np.array([ref.lisa_orbit_average(t, p) for t, p in zip(th, ph)])
    if case["scalar"]:
        th, ph, psi, want = float(th[0]), float(ph[0]), float(psi[0]), want[0]
        dp, dx, px = want
    else:
        dp, dx, px = want.T
    c, s = np.cos(2 * psi), np.sin(2 * psi)
    fp, fc = (c * c * dp - 2 * s * c * px + s * s * dx) / 4, (c * c * dx + 2 * s * c * px + s * s * dp) / 4
    for conv in (lambda x: x, lambda x: (x * u.rad).to(case["unit"])):
        a, b, p = conv(th), conv(ph), conv(psi)

        def v(x):
            return np.asarray(x.value if isinstance(x, u.Quantity) else x)
        close(v(utils.D_plus_squared(a, b)), dp, 1e-9, 1e-11, "<D+^2>")
        close(v(utils.D_cross_squared(a, b)), dx, 1e-9, 1e-11, "<Dx^2>")
        close(v(utils.D_plus_D_cross(a, b)), px, 1e-9, 1e-11, "<D+Dx>")
        gp, gc = v(utils.F_plus_squared(a, b, p)), v(utils.F_cross_squared(a, b, p))
        close(gp, fp, 1e-9, 1e-11, "<F+^2>")
        close(gc, fc, 1e-9, 1e-11, "<Fx^2>")
        check(np.all(gp >= -1e-12) and np.all(gc >= -1e-12), "negative response", gp=gp, gc=gc)
    close(np.asarray(utils.F_plus_squared(th, ph, np.asarray(psi) + np.pi / 4)), fc, 1e-9, 1e-11,
          "rotation by 45 degrees")


FRAMES = ["barycentrictrueecliptic", "heliocentrictrueecliptic", "geocentrictrueecliptic"]


@facet(P, "modulation", st.fixed_dictionaries({"pts": PTS, "unit": unit("ang"), "frame": st.sampled_from(FRAMES),
                                               "dist": st.booleans(), "scalar": st.booleans()}), 250, 5000,
       "random positions/polarisations/inclinations; modulation against the reference; non-trivial: inclined, off-axis")
def modulation(case, rec):
    th, ph, psi, inc = (arr(case, k) for k in ("th", "ph", "psi", "inc"))
    lat = np.pi / 2 - th
    if case["scalar"]:
        ph, psi, inc, lat = (float(x[0]) for x in (ph, psi, inc, lat))
    rec.nontrivial(bool(np.any(np.abs(np.cos(inc)) < 0.999)))
    rec.label("scalar" if case["scalar"] else "array")
    kw = {"distance": np.ones_like(lat) * u.kpc} if case["dist"] else {}
    pos = SkyCoord(lon=(ph * u.rad).to(case["unit"]), lat=(lat * u.rad).to(case["unit"]), frame=case["frame"], **kw)
    # the function reads longitude and latitude of the position it is given
    want = ref.amp_mod(lat, ph, psi, inc)
    got = strain.amplitude_modulation(position=pos, polarisation=(psi * u.rad).to(case["unit"]),
                                      inclination=(inc * u.rad).to(case["unit"]))
    got = np.asarray(u.Quantity(got).to(u.dimensionless_unscaled).value)
    close(got, want, 1e-9, 1e-11, "amplitude modulation")
    check(np.all(got >= -1e-12), "negative modulation", got=got)
    # looking from the other side (i -> pi - i) changes nothing
    got2 = strain.amplitude_modulation(position=pos, polarisation=(psi * u.rad).to(case["unit"]),
                                       inclination=((np.pi - inc) * u.rad))
    close(np.asarray(u.Quantity(got2).value), want, 1e-9, 1e-11, "modulation for pi - i")


@facet(P, "average", st.fixed_dictionaries({"dphi": st.floats(0, 1), "dpsi": st.floats(0, 1)}), 15, 200,
       "full-sky quadrature (exact for these trigonometric polynomials) with random grid offsets; all non-trivial")
def average(case, rec):
    rec.nontrivial()
    x, w = np.polynomial.legendre.leggauss(12)
    xi, wi = np.polynomial.legendre.leggauss(8)
    ph = 2 * np.pi * (np.arange(16) + case["dphi"]) / 16
    ps = np.pi * (np.arange(16) + case["dpsi"]) / 16
    T, PH, PS, CI = np.meshgrid(np.arccos(x), ph, ps, np.arccos(xi), indexing="ij")
    W = np.einsum("a,b,c,d->abcd", w / 2, np.ones(16) / 16, np.ones(16) / 16, wi / 2)
    close((W * utils.F_plus_squared(T, PH, PS)).sum(), 0.15, 1e-10, what="sky and polarisation average of <F+^2>")
    close((W * utils.F_cross_squared(T, PH, PS)).sum(), 0.15, 1e-10, what="sky and polarisation average of <Fx^2>")
    pos = SkyCoord(lon=PH.ravel() * u.rad, lat=(np.pi / 2 - T.ravel()) * u.rad, frame="barycentrictrueecliptic")
    mod = strain.amplitude_modulation(pos, PS.ravel() * u.rad, CI.ravel() * u.rad)
    close((W.ravel() * np.asarray(u.Quantity(mod).value)).sum(), 0.15, 1e-10,
          what="all-parameter average of the modulation")
