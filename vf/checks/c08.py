"""C08 timestep and output-variable contract of the evolution functions"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check
from ..gen import any_freq, any_mass, close, col, counts, ecc, logf, q, quiet, raises, rows, unit, units, val
from legwork import evol

P = "C08"
ROW = {"m1": any_mass, "m2": any_mass, "f": any_freq, "e": ecc(0.9, circ=False, lo=1e-3)}
UNIT = {"timesteps": u.yr, "a": u.AU, "f_orb": u.Hz, "f_GW": u.Hz, "ecc": None}


def si(r):
    m1, m2 = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN
    a, b, e = ref.sma(col(r, "f"), m1, m2), ref.beta(m1, m2), col(r, "e")
    return m1, m2, a, b, e, np.array([ref.t_merge(x, y, z) for x, y, z in zip(a, e, b)])


@facet(P, "outputs", st.fixed_dictionaries({
    "rows": rows(ROW, max_size=4), "which": st.sampled_from(["circ", "ecc"]),
    "vars": st.lists(st.sampled_from(["timesteps", "a", "f_orb", "f_GW", "ecc"]), min_size=1, max_size=6),
    "form": st.sampled_from(["list", "array", "tuple", "str", "default"]), "scalar": st.booleans(),
    "shape": st.sampled_from(["1d", "2d", "t_evol", "t_evol_each", "t_evol_len1"]), "n": st.integers(1, 12), "top": st.floats(0.05, 0.9),
    "unit": unit("time"), "masses": st.booleans(), "avoid": st.booleans()}), 400, 8000,
    "any ordered selection of outputs (repeats included) as list/array/tuple/string, all time forms; each output "
    "must be the right quantity, in its documented unit and shape; non-trivial: >= 2 outputs")
def outputs(case, rec):
    r = case["rows"][:1] if case["scalar"] or case["shape"] == "t_evol_len1" else case["rows"]
    m1, m2, a, b, e, tm = si(r)
    circ = case["which"] == "circ"
    if circ:
        tm = a**4 / (4 * b)
    vs = [v for v in case["vars"] if not (circ and v == "ecc")] or ["f_orb"]
    form = case["form"]
    if form == "default":
        vs = ["f_orb"] if circ else ["ecc", "f_orb"]
    elif form == "str":
        vs = vs[:1]
    rec.nontrivial(len(vs) > 1)
    rec.label(case["which"], form, case["shape"])
    n = case["n"]
    kw, shape = {}, case["shape"]
    if shape in ("1d", "2d"):
        n = max(n, 1)
        fr = np.linspace(0, case["top"], n)
        t = np.repeat((fr * tm.min())[None, :], len(r), 0) if shape == "1d" else fr[None, :] * tm[:, None]
        kw["timesteps"] = q(t[0] if shape == "1d" else t, "s", case["unit"])
    else:
        T = case["top"] * (tm if shape == "t_evol_each" else tm.min())
        if shape == "t_evol_len1":
            T = np.array([T])
        t = np.linspace(0, np.broadcast_to(T, (len(r),)), n).T
        if shape == "t_evol_each" and case["scalar"]:
            T = T[0]
        kw.update(t_evol=q(T, "s", case["unit"]), n_step=n)
    mm = dict(m_1=m1 * u.kg, m_2=m2 * u.kg)
    ic = dict(a_i=a * u.m)
    if not circ:
        ic["ecc_i"] = e
    if not case["masses"] and not {"f_orb", "f_GW"} & set(vs):
        mm = dict(beta=b * u.m**4 / u.s)
        rec.label("beta only")
    if case["scalar"]:
        mm = {k: v[0] for k, v in mm.items()}
        ic = {k: v[0] for k, v in ic.items()}
    fn = evol.evol_circ if circ else evol.evol_ecc
    if not circ:
        kw["avoid_merger"] = case["avoid"]
        kw["t_before"] = 0.01 * tm.min() * u.s
        kw["t_merge"] = (tm if not case["scalar"] else tm[0]) * u.s
    if form != "default":
        kw["output_vars"] = {"list": list(vs), "array": np.array(vs), "tuple": tuple(vs), "str": vs[0]}[form]
    with quiet():
        out = fn(**mm, **ic, **kw)
    if len(vs) == 1:
        check(not isinstance(out, (list, tuple)), "a single output should not be wrapped in a list", got=type(out))
        out = [out]
    check(len(out) == len(vs), "number of outputs", got=len(out), want=len(vs))
    # reference values of every variable
    if circ:
        ee = None
        aa = np.maximum(a[:, None]**4 - 4 * b[:, None] * t, 0)**0.25
        tol = 1e-8
    else:
        ee = np.array([[ref.ecc_at(a[i], e[i], b[i], x) for x in t[i]] for i in range(len(r))])
        aa = ref.c0(a, e)[:, None] * ref.shape_e(ee)
        tol = 3e-4
    ff = ref.forb(aa, m1[:, None], m2[:, None])
    want = {"timesteps": t / ref.YR, "a": aa / ref.AU, "f_orb": ff, "f_GW": 2 * ff, "ecc": ee}
    for v, z in zip(vs, out):
        if UNIT[v] is None:
            check(not isinstance(z, u.Quantity), "eccentricity has a unit", got=z)
            got = np.asarray(z)
        else:
            check(isinstance(z, u.Quantity) and z.unit == UNIT[v], "{} is not in {}".format(v, UNIT[v]),
                  got=getattr(z, "unit", None))
            got = z.value
        w = want[v]
        shp = (t.shape[1],) if case["scalar"] else t.shape
        check(got.shape == shp, "shape of " + v, got=got.shape, want=shp)
        close(got.reshape(w.shape), w, tol if v != "timesteps" else 1e-9, 1e-9 * w.max() if v == "timesteps" else 0, v)


@facet(P, "timesteps", st.fixed_dictionaries({
    "rows": rows(ROW, max_size=4), "n": counts(1, 50, 101, 400, 1001, 5000), "T": st.lists(logf(1, 1e9), min_size=4, max_size=4),
    "mode": st.sampled_from(["merger", "one", "each", "1d", "2d", "both", "1d-scalar"]), "unit": unit("time"),
    "circ": st.booleans(), "nstep_given": st.booleans()}), 300, 5000,
    "create_timesteps_array in every documented form; non-trivial: > 1 source")
def timesteps(case, rec):
    r = case["rows"]
    x = len(r)
    m1, m2, a, b, e, tm = si(r)
    if case["circ"]:
        e, tm = 0 * e, a**4 / (4 * b)
    rec.nontrivial(x > 1)
    rec.label(case["mode"])
    args = dict(a_i=a * u.m, beta=b * u.m**4 / u.s, ecc_i=e)
    n = case["n"] if case["nstep_given"] else 100
    if case["nstep_given"]:
        args["n_step"] = n
    T = np.array(case["T"])[:x]
    mode, un = case["mode"], case["unit"]
    tol = 1e-9
    if mode == "merger":
        want = np.linspace(0, tm, n).T
        tol = 2.3e-2        # small/large eccentricity approximations, judged by C05
    elif mode == "one":
        args["t_evol"] = q(T[0], "yr", un)
        want = np.repeat(np.linspace(0, T[0], n)[None, :], x, 0) * ref.YR
    elif mode == "each":
        args["t_evol"] = q(T, "yr", un)
        want = np.linspace(0, T, n).T * ref.YR
    else:
        ts = np.unique(np.concatenate([[0.0], case["T"]]))
        if mode == "1d-scalar":
            args["a_i"], args["beta"] = args["a_i"][0], args["beta"][0]
            args["timesteps"] = q(ts, "yr", un)
            want = ts[None, :] * ref.YR
        elif mode == "2d":
            want = ts[None, :] * T[:, None] * ref.YR
            args["timesteps"] = q(want, "s", un)
        else:
            args["timesteps"] = q(ts, "yr", un)
            want = np.repeat(ts[None, :], x, 0) * ref.YR
            if mode == "both":
                args["t_evol"] = 3 * u.yr         # explicit timesteps take precedence
    got = evol.create_timesteps_array(**args)
    close(val(got, "s"), want, tol, 1e-9 * want.max(), "timesteps array")


@facet(P, "inputs", st.fixed_dictionaries({
    "rows": rows(ROW, max_size=3), "have": st.lists(st.sampled_from(["beta", "m_1", "m_2", "a_i", "f_orb_i"]), unique=True),
    "var": st.sampled_from(["a", "f_orb", "f_GW", "timesteps", "ecc"]), "scalar": st.booleans(),
    "units": units("mass", "freq", "len")}), 400, 5000,
    "every subset of the mass/frequency inputs: ValueError exactly when underdetermined, beta and a_i taking "
    "precedence; non-trivial: enough or one input short")
def inputs(case, rec):
    r = case["rows"][:1] if case["scalar"] else case["rows"]
    m1, m2, a, b, e, tm = si(r)
    have, un = set(case["have"]), case["units"]
    # beta and a_i deliberately differ from what the masses and frequency imply: they must take precedence
    b2, a2 = 1.3 * b, 1.2 * a
    full = {"beta": b2 * u.m**4 / u.s, "m_1": q(m1, "kg", un["mass"]), "m_2": q(m2, "kg", un["mass"]), "a_i": q(a2, "m", un["len"]),
            "f_orb_i": q(col(r, "f"), "Hz", un["freq"])}
    kw = {k: v for k, v in full.items() if k in have}
    masses = {"m_1", "m_2"} <= have
    ok = ("beta" in have or masses) and ("a_i" in have or ("f_orb_i" in have and masses))
    rec.nontrivial(ok or len(have) >= 2)
    rec.label("ok" if ok else "underdetermined")
    if case["scalar"]:
        kw = {k: v[0] for k, v in kw.items()}
        e = e[0]
    if ok:
        bb, aa = evol.check_mass_freq_input(**kw)
        wb, wa = (b2 if "beta" in have else b), (a2 if "a_i" in have else a)
        if case["scalar"]:
            wb, wa = wb[0], wa[0]
        close(val(bb, "m4/s"), wb, 1e-9, what="beta")
        close(val(aa, "m"), wa, 1e-9, what="a_i")
        close(val(evol.get_t_merge_circ(**kw), "s"), wa**4 / 4 / wb, 1e-9, what="merger time uses the supplied beta / a_i")
    else:
        raises(ValueError, lambda: evol.check_mass_freq_input(**kw), "check_mass_freq_input with only {}".format(sorted(have)))
    needs_m = case["var"] in ("f_orb", "f_GW")
    t = dict(t_evol=0.1 * tm.min() * u.s, n_step=3)
    calls = [("evol_ecc", lambda: evol.evol_ecc(ecc_i=e, output_vars=[case["var"]], avoid_merger=False, **t, **kw))]
    if case["var"] != "ecc":
        calls.append(("evol_circ", lambda: evol.evol_circ(output_vars=case["var"], **t, **kw)))
    for name, fn in calls:
        if ok and (masses or not needs_m):
            fn()
        else:
            raises(ValueError, fn, "{} of {} with only {}".format(name, case["var"], sorted(have)))
