"""C01 orbital algebra"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_freq, any_len, any_mass, close, col, ecc, logf, q, rows, units, val
from legwork import utils

P = "C01"
R_ORB = st.fixed_dictionaries({
    "rows": rows({"m1": any_mass, "m2": any_mass, "f": any_freq, "a": any_len,
                  "e": st.one_of(ecc(0.999, circ=False), ecc(0.999, circ=False), logf(1e-12, 1e-4))}),
    "units": units("mass", "freq", "len"), "units2": units("mass", "freq", "len"), "scalar": st.booleans()})
RULE_ARR = "random source lists with random (also mixed) units; non-trivial: >=2 sources or non-default units or scalar"


def _prep(case):
    r, un, un2 = case["rows"], case["units"], case["units2"]
    m1, m2, f, a, e = (col(r, k) for k in ("m1", "m2", "f", "a", "e"))
    if case["scalar"]:
        m1, m2, f, a, e = (float(x[0]) for x in (m1, m2, f, a, e))
    qq = {"m1": q(m1, "Msun", un["mass"]), "m2": q(m2, "Msun", un2["mass"]), "f": q(f, "Hz", un["freq"]),
          "a": q(a, "AU", un["len"])}
    return (m1, m2, f, a, e), qq


def _triv(case, rec):
    rec.nontrivial(len(case["rows"]) > 1 or case["scalar"] or case["units"]["mass"] != "Msun"
                   or case["units"] != case["units2"])
    rec.label("scalar" if case["scalar"] else "array", "mass unit " + case["units"]["mass"])


@facet(P, "masses", R_ORB, 250, 6000, RULE_ARR)
def masses(case, rec):
    (m1, m2, f, a, e), x = _prep(case)
    _triv(case, rec)
    got = utils.chirp_mass(x["m1"], x["m2"])
    close(val(got, "Msun", "chirp mass"), ref.chirp_mass(m1, m2), 1e-12, what="chirp mass")
    close(val(utils.chirp_mass(x["m2"], x["m1"]), "Msun"), ref.chirp_mass(m1, m2), 1e-12, what="chirp mass swapped")
    got = utils.beta(x["m1"], x["m2"])
    close(val(got, "m4/s", "beta"), ref.beta(np.asarray(m1) * ref.MSUN, np.asarray(m2) * ref.MSUN), 1e-11,
          what="beta")
    # plain numbers in, plain number out
    close(utils.chirp_mass(m1, m2), ref.chirp_mass(m1, m2), 1e-12, what="unitless chirp mass")


@facet(P, "kepler", R_ORB, 250, 6000, RULE_ARR)
def kepler(case, rec):
    (m1, m2, f, a, e), x = _prep(case)
    _triv(case, rec)
    M1, M2 = np.asarray(m1) * ref.MSUN, np.asarray(m2) * ref.MSUN
    got_a = utils.get_a_from_f_orb(x["f"], x["m1"], x["m2"])
    close(val(got_a, "m", "separation"), ref.sma(np.asarray(f), M1, M2), 1e-11, what="separation from frequency")
    got_f = utils.get_f_orb_from_a(x["a"], x["m1"], x["m2"])
    close(val(got_f, "Hz", "frequency"), ref.forb(np.asarray(a) * ref.AU, M1, M2), 1e-11,
          what="frequency from separation")
    back = utils.get_f_orb_from_a(got_a, x["m1"], x["m2"])
    close(val(back, "Hz"), f, 1e-11, what="f -> a -> f")
    back = utils.get_a_from_f_orb(got_f, x["m1"], x["m2"])
    close(val(back, "AU"), a, 1e-11, what="a -> f -> a")


@facet(P, "c0", R_ORB, 250, 6000, RULE_ARR)
def c0(case, rec):
    (m1, m2, f, a, e), x = _prep(case)
    _triv(case, rec)
    got = utils.c_0(x["a"], e)
    close(val(got, "m", "c_0"), ref.c0(np.asarray(a) * ref.AU, np.asarray(e)), 1e-11, what="c_0")
    back = utils.get_a_from_ecc(e, got)
    close(val(back, "AU", "separation"), a, 1e-11, what="(a, e) -> c_0 -> a")
    # the orbit shrinks as it circularises: a(e) at fixed c_0 equals the closed form at other eccentricities
    for k in (0.9, 0.5, 0.1):
        close(val(utils.get_a_from_ecc(np.asarray(e) * k, got), "m"),
              ref.c0(np.asarray(a) * ref.AU, np.asarray(e)) * ref.shape_e(np.asarray(e) * k), 1e-11,
              what="a(e) along the c_0 orbit")
    # unit-free numbers follow the same formula
    close(utils.c_0(a, e), ref.c0(np.asarray(a), np.asarray(e)), 1e-11, what="unitless c_0")


@facet(P, "broadcast", st.fixed_dictionaries({
    "m1": any_mass, "m2": any_mass, "f": st.lists(any_freq, min_size=1, max_size=6),
    "e": st.lists(ecc(0.99, circ=True), min_size=1, max_size=5), "c": logf(1e-3, 10.)}), 100, 2000,
    "one system at many frequencies/eccentricities (evolution-style broadcasting); non-trivial: >=2 values")
def broadcast(case, rec):
    f, e = np.array(case["f"]), np.array(case["e"])
    rec.nontrivial(len(f) > 1)
    a = utils.get_a_from_f_orb(f * u.Hz, case["m1"] * u.Msun, case["m2"] * u.Msun)
    close(val(a, "m"), ref.sma(f, case["m1"] * ref.MSUN, case["m2"] * ref.MSUN), 1e-11, what="broadcast separation")
    order = np.argsort(f)
    check(np.all(np.diff(a.value[order]) <= 0), "separation must fall with frequency", a=a, f=f)
    got = utils.get_a_from_ecc(e[np.newaxis, :], (np.array([1.0, 2.0]) * case["c"] * u.AU)[:, np.newaxis])
    close(val(got, "AU"), np.outer([1.0, 2.0], case["c"] * ref.shape_e(e)), 1e-11, what="2D a(e)")
