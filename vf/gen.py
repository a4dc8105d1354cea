"""Strategies (JSON-serialisable cases) and helpers shared by the checks"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .core import check, Violation

UNITS = {
    "mass": ["Msun", "kg", "g", "Mjup", "Mearth"],
    "freq": ["Hz", "mHz", "1/yr", "1/d", "uHz", "kHz"],
    "len": ["AU", "Rsun", "km", "m", "pc"],
    "dist": ["kpc", "Mpc", "pc", "m", "lyr"],
    "time": ["yr", "s", "Myr", "d", "Gyr", "h"],
    "ang": ["rad", "deg", "arcmin", "hourangle"],
}


def unit(kind):
    """mostly the canonical unit, often something else"""
    opts = UNITS[kind]
    return st.one_of(st.just(opts[0]), st.sampled_from(opts))


def units(*kinds):
    return st.fixed_dictionaries({k: unit(k) for k in kinds})


def logf(lo, hi):
    a, b = np.log10(lo), np.log10(hi)
    return st.floats(float(a), float(b), allow_nan=False).map(lambda x: float(min(max(10**x, lo), hi)))


def counts(lo, hi, *big):
    """usually a small number of steps, harmonics, ..., now and then a large one"""
    return st.integers(0, 11).flatmap(lambda i: st.integers(lo, hi) if i else st.sampled_from(list(big)))


mass = st.one_of(logf(0.05, 200.), st.sampled_from([0.5, 1.0, 1.4, 10., 30.]), st.integers(1, 60).map(float))
bh_mass = logf(0.05, 1e7)
forb = logf(1e-7, 1.0)
dist_kpc = logf(1e-2, 1e6)
# laws of physics know no usual range: mostly ordinary values, sometimes very small or large ones
any_mass = st.one_of(bh_mass, bh_mass, bh_mass, logf(1e-9, 1e13))
any_freq = st.one_of(logf(1e-8, 10.), logf(1e-8, 10.), logf(1e-8, 10.), logf(1e-16, 1e4))
any_dist = st.one_of(dist_kpc, dist_kpc, dist_kpc, logf(1e-12, 1e9))
any_len = st.one_of(logf(1e-6, 1e3), logf(1e-6, 1e3), logf(1e-12, 1e9))


def ecc(hi=0.95, circ=True, lo=1e-6):
    opts = [st.floats(lo, hi), st.floats(0.01, min(0.3, hi)), logf(lo, 0.05),
            st.sampled_from([x for x in (0.05, 0.1, 0.14999, 0.15, 0.15001, 0.2, 0.5, 0.7, 0.9, 0.94) if x <= hi])]
    if circ:
        opts.append(st.just(0.0))
    return st.one_of(*opts)


def _value(x):
    return (0, x) if isinstance(x, (int, float)) else (1, 0.0)


def _apply(rws, op, together):
    """the rows with some structure: ties between them, or sorted by a field"""
    if op is None or len(rws) < 2:
        return rws
    kind, keys, mask = op
    rws = [dict(r) for r in rws]
    fields = sorted(rws[0])
    chosen = {fields[k % len(fields)] for k in keys}
    for group in together:
        if chosen & set(group):
            chosen |= {k for k in group if k in rws[0]}
    if kind == "sort":
        k = fields[keys[0] % len(fields)]
        return sorted(rws, key=lambda r: _value(r[k]), reverse=bool(mask & 1))
    for i in range(1, len(rws)):
        if kind == "all" or (kind == "ends" and i == len(rws) - 1) or (kind == "some" and mask >> i & 1):
            for k in chosen:
                if k in rws[i] and k in rws[0]:
                    rws[i][k] = rws[0][k]
    return rws


def structured(lists, together=()):
    """lists of dictionaries in which members sometimes agree in some fields, or are in order of one"""
    op = st.tuples(st.sampled_from(["some", "all", "ends", "some", "sort"]), st.lists(st.integers(0, 23), min_size=1, max_size=6), st.integers(0, 63))
    return st.tuples(lists, st.one_of(st.none(), st.none(), op)).map(lambda t: _apply(t[0], t[1], together))


def rows(fields, min_size=1, max_size=6):
    """list of per-source dictionaries"""
    return structured(st.lists(st.fixed_dictionaries(fields), min_size=min_size, max_size=max_size))


def col(rws, key):
    return np.array([r[key] for r in rws], dtype=float)


def q(value, frm, to=None):
    """quantity given in unit ``frm``, expressed in ``to``"""
    v = np.asarray(value, dtype=float) if isinstance(value, (list, np.ndarray)) else float(value)
    x = v * u.Unit(frm)
    return x if to is None or to == frm else x.to(to)


def val(x, un, what="result"):
    """numeric value of a quantity in unit ``un`` (a missing or wrong unit is a violation)"""
    check(isinstance(x, u.Quantity), "{} has no units (expected something in {})".format(what, un), got=x)
    try:
        return x.to(un).value
    except u.UnitConversionError:
        raise Violation("{} has unit {} which is not convertible to {}".format(what, x.unit, un))


def close(got, want, rtol=1e-9, atol=0.0, what="value", shape=True):
    """got == want within tolerance, same shape, same inf/nan pattern"""
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if shape:
        check(g.shape == w.shape, "{}: shape {} instead of {}".format(what, g.shape, w.shape))
    g, w = np.broadcast_arrays(g, w)
    bad_fin = np.isfinite(g) != np.isfinite(w)
    bad_inf = np.isinf(w) & (g != w)
    with np.errstate(all="ignore"):
        bad_val = np.isfinite(w) & np.isfinite(g) & ~(np.abs(g - w) <= atol + rtol * np.abs(w))
    bad = bad_fin | bad_inf | bad_val
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad)) if bad.ndim else ()
        gi, wi = g[i], w[i]
        raise Violation("{}: got {!r}, expected {!r} at index {} (rtol {:g})".format(
            what, float(gi), float(wi), i, rtol))


def same(got, want, what="value"):
    """exactly equal arrays/quantities (value and unit)"""
    if isinstance(want, u.Quantity) or isinstance(got, u.Quantity):
        check(isinstance(got, u.Quantity) and isinstance(want, u.Quantity), what + ": unit lost or gained",
              got=got, want=want)
        check(got.unit == want.unit, "{}: unit {} instead of {}".format(what, got.unit, want.unit))
        got, want = got.value, want.value
    g, w = np.asarray(got), np.asarray(want)
    check(g.shape == w.shape, "{}: shape {} instead of {}".format(what, g.shape, w.shape))
    ok = np.array_equal(g, w, equal_nan=True) if g.dtype.kind == "f" and w.dtype.kind == "f" else np.array_equal(g, w)
    check(ok, what + ": not identical", got=got, want=want)


def raises(exc, fn, what):
    """fn() must raise exc (a class or tuple)"""
    try:
        out = fn()
    except exc:
        return
    except Exception as e:
        raise Violation("{}: raised {} ({}) instead of {}".format(what, type(e).__name__, str(e)[:200], exc))
    raise Violation("{}: accepted, should raise {}".format(what, exc), )


class quiet:
    """silence LEGWORK's logger and prints during a block, collecting the messages"""

    def __enter__(self):
        import io
        import contextlib
        import logging
        from legwork import logger
        self.messages = []
        outer = self

        class H(logging.Handler):
            def emit(self, record):
                outer.messages.append((record.levelname, record.getMessage()))
        self.h = H()
        self.lg = logger
        self.old = list(logger.handlers)
        for h in self.old:
            logger.removeHandler(h)
        logger.addHandler(self.h)
        self.buf = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.buf)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        self.lg.removeHandler(self.h)
        for h in self.old:
            self.lg.addHandler(h)
        return False

    @property
    def out(self):
        return self.buf.getvalue()
