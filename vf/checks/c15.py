"""C15 luminosity tolerance: number of harmonics, eccentric threshold, strongest harmonic"""
import os

import numpy as np
import astropy.units as u
from hypothesis import strategies as st
from scipy.optimize import brentq

from .. import ref
from ..core import facet, check, overlay_dir
from ..gen import close, logf, quiet, raises, same, val
from legwork import source

P = "C15"
TOL = st.one_of(st.sampled_from([0.05, 0.01, 0.1, 1e-3, 0.3]), logf(1e-4, 0.34))
WIDE = st.one_of(TOL, st.floats(0.3, 0.95))
E = st.one_of(st.floats(0, 0.955), st.floats(0, 0.3), st.floats(0.8, 0.959), st.just(0.0), st.sampled_from([0.05, 0.1, 0.5, 0.9]))
_grid = []


def grid():
    if not _grid:
        d = np.load(os.path.join(overlay_dir(), "legwork", "harmonics.npz"), allow_pickle=True)
        lo, hi, n = d["e_lims"]
        _grid.append((1 - np.logspace(np.log10(1 - lo), np.log10(1 - hi), int(n)), int(d["n_max"])))
    return _grid[0]


def make(tol, klass=None, e=(0.1,), **kw):
    n = len(e)
    return (klass or source.Source)(m_1=np.full(n, 10.) * u.Msun, m_2=np.full(n, 5.) * u.Msun, ecc=np.array(e, float), dist=np.full(n, 8.) * u.kpc,
                                    f_orb=np.full(n, 1e-4) * u.Hz, gw_lum_tol=tol, interpolate_g=False, interpolate_sc=False, **kw)


def captured(e):
    """fraction of the luminosity captured by the first 1, 2, ... harmonics"""
    n = np.arange(1, grid()[1] + 1)
    return np.cumsum(ref.peters_g(n, e)) / ref.peters_f(e)


def needed(e, tol):
    """smallest sufficient number of harmonics, at least 2 (None if beyond the table)"""
    k = np.flatnonzero(captured(e) >= 1 - tol)
    return None if len(k) == 0 else max(2, int(k[0]) + 1)


@facet(P, "harmonics", st.fixed_dictionaries({"tol": TOL, "e": st.lists(E, min_size=1, max_size=12), "size": st.sampled_from([21, 101, 300, 1100, 5000])}), 120, 2500,
       "random tolerances and eccentricities: luminosity captured and not more harmonics than the next tabulated eccentricity needs; "
       "non-trivial: e above the threshold", data=("harmonics",), shards=2, thorough_shards=6)
def harmonics(case, rec):
    tol = case["tol"]
    s = make(tol)
    g, n_max = grid()
    got = s.harmonics_required(np.array(case["e"]))
    check(np.shape(got) == (len(case["e"]),), "shape of harmonics_required", got=got)
    check(np.issubdtype(np.asarray(got).dtype, np.integer), "harmonics_required is not an integer", got=got)
    for e, k in zip(case["e"], got):
        rec.nontrivial(e > s.ecc_tol)
        i = int(np.clip(np.searchsorted(g, e, side="right") - 1, 0, len(g) - 2))
        lo, hi = needed(g[i], tol * (1 + 1e-9)), needed(g[i + 1], tol * (1 - 1e-9))
        complete = hi is not None
        lo, hi = (n_max if lo is None else lo), (n_max if hi is None else hi)
        check(2 <= k, "fewer than 2 harmonics", e=e, got=k)
        check(lo <= k <= hi, "harmonics required outside what the neighbouring tabulated eccentricities need", e=e, tol=tol, got=int(k), lo=lo, hi=hi)
        if k < n_max:
            cap = captured(e)[k - 1]
            # (the table ends at n_max, next to which nothing better than the neighbours can be had)
            check(cap >= 1 - (1.002 if complete else 1.25) * tol, "harmonics used do not capture the luminosity", e=e, tol=tol, harmonics=int(k), captured=cap)
        one = s.harmonics_required(float(e))
        check(int(one) == int(k), "scalar and array eccentricity disagree", e=e, got=one, want=k)
    # how many eccentricities are asked for at once doesn't matter
    many = np.asarray(s.harmonics_required(np.resize(np.array(case["e"]), case["size"])))
    same(many, np.resize(np.asarray(got), case["size"]), "harmonics required for many eccentricities at once")


@facet(P, "exact_on_table", st.fixed_dictionaries({"tol": TOL, "i": st.lists(st.integers(0, 239), min_size=1, max_size=20)}), 80, 1500,
       "at tabulated eccentricities the number of harmonics is the smallest sufficient one; non-trivial: more than 2 harmonics",
       data=("harmonics",), shards=2, thorough_shards=4)
def exact_on_table(case, rec):
    s = make(case["tol"])
    g, n_max = grid()
    for i in case["i"]:
        i = i % len(g)
        k = int(s.harmonics_required(g[i]))
        cap = captured(g[i])
        rec.nontrivial(k > 2)
        if k < n_max:
            check(cap[k - 1] >= 1 - case["tol"] - 1e-9, "not enough harmonics", e=g[i], got=k, captured=cap[k - 1], tol=case["tol"])
        # one more than needed is possible through the round-up of the interpolation at the grid point itself
        check(k <= 2 or cap[k - 3] < 1 - case["tol"] + 1e-9, "more harmonics than needed", e=g[i], got=k, tol=case["tol"],
              captured_two_fewer=cap[k - 3])


@facet(P, "monotone", st.fixed_dictionaries({"tols": st.lists(WIDE, min_size=2, max_size=4, unique=True)}), 40, 600,
       "more harmonics for larger e and smaller tolerance, more generous tolerance raises the threshold; all non-trivial", data=("harmonics",))
def monotone(case, rec):
    rec.nontrivial()
    tols = sorted(case["tols"])
    e = np.concatenate([np.linspace(0, 0.96, 500), [0.97, 0.99, 0.999]])
    last, th = None, None
    for t in tols:
        s = make(t)
        k = np.asarray(s.harmonics_required(e))
        check(np.all(np.diff(k) >= 0), "harmonics required decrease with eccentricity", tol=t)
        if last is not None:
            check(np.all(k <= last), "a looser tolerance needs more harmonics", tol=t)
            check(s.ecc_tol >= th, "a looser tolerance lowers the eccentric threshold", tol=t, got=s.ecc_tol, before=th)
        last, th = k, s.ecc_tol
    check(int(make(tols[0]).harmonics_required(0.0)) == 2, "a circular source needs exactly 2 harmonics")


@facet(P, "threshold", st.fixed_dictionaries({"tol": WIDE, "new": st.floats(0, 0.5)}), 80, 1500,
       "the threshold is where the n=2 harmonic stops being sufficient, it separates the masks and is read-only; all non-trivial",
       data=("harmonics",), fixed=[{"tol": t, "new": 0.1} for t in (0.05, 0.01, 0.34, 0.36, 0.5, 0.9)])
def threshold(case, rec):
    rec.nontrivial()
    tol = case["tol"]
    s = make(tol)

    def excess(e):
        return float(ref.peters_g(2, e) / ref.peters_f(e)) - (1 - tol)
    root = brentq(excess, 1e-9, 0.9999, xtol=1e-12)
    res = 3e-5 if tol < 0.34 else 2e-4
    check(root - 1e-9 <= s.ecc_tol <= root + res, "eccentric threshold", got=s.ecc_tol, want=root, tol=tol)
    check(excess(s.ecc_tol) <= 1e-9, "the n=2 harmonic is still sufficient at the threshold", ecc_tol=s.ecc_tol)
    before = s.ecc_tol
    raises(AttributeError, lambda: setattr(s, "ecc_tol", case["new"]), "setting ecc_tol")
    check(s.ecc_tol == before, "ecc_tol changed by the rejected assignment")
    p = make(tol, e=(0.0, before, np.nextafter(before, 1), before * 0.999, min(before * 1.001, 0.99999)))
    same(np.asarray(p.get_source_mask(circular=True)), np.array([True, True, False, True, False]), "circular mask around the threshold")


# a small change of the tolerance in use (a factor or a difference)
NEAR = st.tuples(st.sampled_from(["times", "plus"]), st.sampled_from([-1, 1]), logf(1e-12, 0.5))


def tolerances(case):
    """the sequence of tolerances of a case"""
    now, out = case["start"], []
    for t in case["ops"]:
        if isinstance(t, (list, tuple)):
            new = now * (1 + t[1] * t[2]) if t[0] == "times" else now + t[1] * t[2] * 1e-2
            t = new if 1e-6 <= new <= 0.9 else now * 0.5 + 1e-6
        out.append(float(t))
        now = t
    return out


@facet(P, "setter", st.fixed_dictionaries({"start": TOL, "ops": st.lists(st.one_of(WIDE, TOL, NEAR), min_size=1, max_size=4), "copy": st.integers(0, 4),
                                           "snr": st.booleans()}), 80, 1500,
       "changing the tolerance any number of times (with copies in between) equals a fresh collection; non-trivial: an actual change",
       data=("harmonics",), shards=2, thorough_shards=4)
def setter(case, rec):
    e = (0.0, 0.02, 0.1, 0.15, 0.3, 0.6, 0.85)
    grid_e = np.linspace(0, 0.99, 300)
    s = make(case["start"], e=e)
    ops = tolerances(case)
    rec.nontrivial(any(t != case["start"] for t in ops))
    kept = []
    for i, t in enumerate(ops):
        if i == case["copy"]:
            kept.append((s.copy(), float(s.gw_lum_tol)))
        if case["snr"]:
            with quiet():
                s.get_snr()
        s.gw_lum_tol = t
    for obj, tol in kept + [(s, ops[-1])]:
        fresh = make(tol, e=e)
        check(obj.gw_lum_tol == tol, "gw_lum_tol", got=obj.gw_lum_tol, want=tol)
        check(obj.ecc_tol == fresh.ecc_tol, "threshold after changing the tolerance", got=obj.ecc_tol, want=fresh.ecc_tol, tol=tol)
        same(np.asarray(obj.harmonics_required(grid_e)), np.asarray(fresh.harmonics_required(grid_e)), "harmonics_required")
        same(np.asarray(obj.max_strain_harmonic(grid_e)), np.asarray(fresh.max_strain_harmonic(grid_e)), "max_strain_harmonic")
        with quiet():
            same(np.asarray(obj.get_snr()), np.asarray(fresh.get_snr()), "SNR after changing the tolerance")
        same(np.asarray(obj.max_snr_harmonic), np.asarray(fresh.max_snr_harmonic), "loudest harmonic after changing the tolerance")


@facet(P, "strongest", st.fixed_dictionaries({"tol": TOL, "e": st.lists(E, min_size=1, max_size=20), "above": st.floats(0.961, 0.9999)}),
       80, 1500, "max_strain_harmonic against argmax of g(n,e) around the neighbouring tabulated eccentricities; non-trivial: n > 2",
       data=("harmonics",))
def strongest(case, rec):
    s = make(case["tol"])
    g, n_max = grid()
    n = np.arange(1, n_max + 1)
    got = s.max_strain_harmonic(np.array(case["e"]))
    check(np.shape(got) == (len(case["e"]),) and np.issubdtype(np.asarray(got).dtype, np.integer), "shape or type", got=got)
    for e, k in zip(case["e"], got):
        i = int(np.clip(np.searchsorted(g, e, side="right") - 1, 0, len(g) - 2))
        pw = [ref.peters_g(n, x) for x in (g[i], g[i + 1])]
        lo = min(int(n[p >= p.max() * (1 - 1e-9)].min()) for p in pw)
        hi = max(int(n[p >= p.max() * (1 - 1e-9)].max()) for p in pw)
        rec.nontrivial(k > 2)
        check(lo <= k <= hi, "strongest harmonic", e=e, got=int(k), lo=lo, hi=hi)
        check(int(s.max_strain_harmonic(float(e))) == k, "scalar and array eccentricity disagree", e=e)
    if case["above"] > g[-1]:
        check(int(s.max_strain_harmonic(case["above"])) == int(s.max_strain_harmonic(g[-1])),
              "strongest harmonic above the table is not that at its end", e=case["above"], got=int(s.max_strain_harmonic(case["above"])))
        check(int(s.harmonics_required(case["above"])) >= int(s.harmonics_required(g[-1])), "harmonics required above the table")
