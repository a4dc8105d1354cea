"""C06 circular evolution"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_freq, any_mass, close, col, counts, logf, q, rows, same, units, val
from legwork import evol

P = "C06"
ROW = {"m1": any_mass, "m2": any_mass, "f": any_freq}
# fractions of the merger time of the source
FRAC = st.one_of(st.floats(0, 1), st.floats(0.9, 1.1), logf(1e-6, 10.), st.sampled_from([0.0, 0.5, 0.999999, 1.000001, 2.]))
MODE = st.sampled_from(["mf", "ma", "ba+m", "bf"])


def si(r):
    m1, m2 = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN
    a, b = ref.sma(col(r, "f"), m1, m2), ref.beta(m1, m2)
    return m1, m2, a, b, a**4 / (4 * b)


def shared(case):
    """sources of very different masses may start from the same separation"""
    r = case["rows"]
    if case["same_a"]:
        a = ref.sma(r[0]["f"], r[0]["m1"] * ref.MSUN, r[0]["m2"] * ref.MSUN)
        r = [dict(x, f=float(ref.forb(a, x["m1"] * ref.MSUN, x["m2"] * ref.MSUN))) for x in r]
    return r


def staggered(fr, T, n):
    """different times for each of n sources, which all start and end together"""
    end = fr[-1] if fr[-1] > 0 else 1.0
    return T * end * (fr / end)[None, :]**(1 + np.arange(n))[:, None]


def kwargs(case, r):
    m1, m2, a, b, tm = si(r)
    un, mode = case["units"], case["mode"]
    kw = dict(m_1=q(m1, "kg", un["mass"]), m_2=q(m2, "kg", un["mass"]))
    if mode.startswith("b"):
        kw["beta"] = b * u.m**4 / u.s
    if mode in ("ma", "ba+m"):
        kw["a_i"] = q(a, "m", un["len"])
    else:
        kw["f_orb_i"] = q(col(r, "f"), "Hz", un["freq"])
    return kw


def judge(out, t, a, m1, m2, b, what):
    """out = [timesteps, a, f_orb, f_GW], t (x, y) in s"""
    tt, aa, ff, fg = val(out[0], "s"), val(out[1], "m"), val(out[2], "Hz"), val(out[3], "Hz")
    for z in (tt, aa, ff, fg):
        check(z.shape == t.shape, what + ": shape", got=z.shape, want=t.shape)
    close(tt, t, 1e-9, 1e-6, what + ": timesteps")
    inner = a**4 - 4 * b * t
    near = np.abs(inner) <= 1e-9 * a**4
    bad = ~near & ~(np.abs(aa**4 - np.maximum(inner, 0)) <= 1e-11 * a**4)
    check(not bad.any(), what + ": separation is not (a0^4 - 4 beta t)^(1/4)", got=aa[bad][:3],
          want=np.maximum(inner, 0)[bad][:3]**0.25)
    merged = (aa == 0)
    check(not (merged & ~near & (inner > 0)).any(), what + ": merged too early")
    check(not (~merged & ~near & (inner < 0)).any(), what + ": not merged after the merger")
    want_f = np.where(merged, 100.0, ref.forb(np.where(merged, 1.0, aa), m1, m2))
    close(ff, want_f, 1e-9, what=what + ": orbital frequency")
    close(fg, 2 * want_f, 1e-9, what=what + ": GW frequency")
    check(np.all(np.diff(aa, axis=-1)[np.diff(tt, axis=-1) >= 0] <= 1e-12 * a.max()), what + ": separation increases")


@facet(P, "law", st.fixed_dictionaries({
    "rows": rows(ROW, max_size=5), "mode": MODE, "units": units("mass", "freq", "len", "time"),
    "fr": st.lists(FRAC, min_size=1, max_size=8), "shape": st.sampled_from(["1d", "2d", "2d_ends", "t_evol", "t_evol_each", "default"]),
    "same_a": st.booleans(), "n_step": counts(2, 30, 101, 400, 1001, 5000), "scalar": st.booleans()}), 400, 8000,
    "random binaries, times up to and past merger given as 1D/2D timesteps, t_evol or nothing; "
    "non-trivial: some time strictly between 0 and the merger of a source")
def law(case, rec):
    r = shared(case)[:1] if case["scalar"] else shared(case)
    m1, m2, a, b, tm = si(r)
    fr = np.unique([0.0] + case["fr"])
    kw = kwargs(case, r)
    un = case["units"]["time"]
    if case["scalar"]:
        kw = {k: v[0] for k, v in kw.items()}
    shape = case["shape"]
    if shape == "1d":
        t = np.repeat((fr * tm[0])[None, :], len(r), 0)
        kw["timesteps"] = q(t[0], "s", un)
    elif shape in ("2d", "2d_ends"):
        t = fr[None, :] * tm[:, None] if shape == "2d" else staggered(fr, tm[0], len(r))
        kw["timesteps"] = q(t, "s", un)
    elif shape == "t_evol":
        T = fr[-1] * tm[0]
        t = np.repeat(np.linspace(0, T, case["n_step"])[None, :], len(r), 0)
        kw.update(t_evol=q(T, "s", un), n_step=case["n_step"])
    elif shape == "t_evol_each":
        T = fr[-1] * tm
        t = np.linspace(0, T, case["n_step"]).T
        kw.update(t_evol=q(T, "s", un), n_step=case["n_step"])
    else:
        t = np.linspace(0, tm, case["n_step"]).T
        kw.update(n_step=case["n_step"])
    rec.label(shape, "scalar" if case["scalar"] else "array")
    rec.nontrivial(bool(((t > 0) & (t < tm[:, None])).any()))
    before = {k: v.copy() for k, v in kw.items() if isinstance(v, u.Quantity)}
    out = evol.evol_circ(output_vars=["timesteps", "a", "f_orb", "f_GW"], **kw)
    for k, v in before.items():
        same(kw[k], v, "argument " + k)
    if case["scalar"]:
        for z in out:
            check(z.ndim == 1, "single source output is not 1D", got=z.shape)
        out = [z[None, :] for z in out]
    judge(out, t, a[:, None], m1[:, None], m2[:, None], b[:, None], "evol_circ")


@facet(P, "compose", st.fixed_dictionaries({
    "rows": rows(ROW, min_size=2, max_size=4), "f1": st.floats(0.01, 0.95), "f2": st.floats(0.01, 0.9), "pick": st.integers(0, 3)}), 150, 3000,
    "evolving in two legs equals once; each source alone equals the batch; non-trivial: > 1 source, both legs > 0")
def compose(case, rec):
    r = case["rows"]
    m1, m2, a, b, tm = si(r)
    t1 = case["f1"] * tm
    t2 = case["f2"] * (tm - t1)
    rec.nontrivial(len(r) > 1 and case["f1"] > 0 and case["f2"] > 0)
    mm = dict(m_1=m1 * u.kg, m_2=m2 * u.kg)
    leg1 = evol.evol_circ(t_evol=t1 * u.s, n_step=3, a_i=a * u.m, output_vars="a", **mm)
    leg2 = evol.evol_circ(t_evol=t2 * u.s, n_step=3, a_i=leg1[:, -1], output_vars="a", **mm)
    once = evol.evol_circ(t_evol=(t1 + t2) * u.s, n_step=3, a_i=a * u.m, output_vars="a", **mm)
    e1, e2 = val(leg2[:, -1], "m")**4, val(once[:, -1], "m")**4
    check(np.all(np.abs(e1 - e2) <= 1e-11 * a**4), "two legs differ from one", two=e1, one=e2)
    i = case["pick"] % len(r)
    alone = evol.evol_circ(t_evol=(t1 + t2)[i] * u.s, n_step=3, a_i=a[i] * u.m, m_1=m1[i] * u.kg, m_2=m2[i] * u.kg,
                           output_vars=["f_orb", "a"])
    close(val(alone[1], "m")**4, val(once[i], "m")**4, 1e-10, 1e-11 * a[i]**4, "source alone vs in the batch")
    left = evol.get_t_merge_circ(a_i=leg1[:, -1], **mm)
    if case["f1"] < 0.9:
        close(val(left, "s"), tm - t1, 1e-9, what="remaining merger time")
