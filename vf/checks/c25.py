"""C25 parallel evolution gives the serial result"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check
from ..gen import bh_mass, col, ecc, logf, q, quiet, rows, same, unit
from legwork import evol, snr
from .c12 import NOISE, noise

P = "C25"
# very different amounts of work per source, so that processes finish out of order
ROW = {"m1": bh_mass, "m2": bh_mass, "f": logf(1e-6, 0.05), "e": st.one_of(ecc(0.9, circ=False, lo=1e-3), st.sampled_from([0.02, 0.5, 0.97, 0.985]))}
VARS = ["timesteps", "a", "f_orb", "f_GW", "ecc"]
PROCS = st.sampled_from([2, 2, 3, 3, 4, 5, 7, 8])


def si(r):
    m1, m2 = col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN
    a, b, e = ref.sma(col(r, "f"), m1, m2), ref.beta(m1, m2), col(r, "e")
    return m1, m2, a, b, e, np.array([ref.t_merge(x, y, z) for x, y, z in zip(a, e, b)])


def batch_labels(rec, n, proc):
    rec.label("{} processes".format(proc), "fewer sources than processes" if n < proc else "more sources than processes" if n > proc else "as many sources as processes",
              *(["does not divide evenly"] if n % proc else []))
    rec.nontrivial(n >= 2)


EVOL = {"procs": st.lists(PROCS, min_size=1, max_size=2, unique=True), "vars": st.lists(st.sampled_from(VARS), min_size=1, max_size=3),
        "shape": st.sampled_from(["1d", "2d", "t_evol", "t_evol_each", "merger"]), "n_step": st.sampled_from([2, 3, 10, 40, 200]), "top": st.floats(0.05, 1.2),
        "unit": unit("time"), "avoid": st.booleans(), "beta": st.booleans(), "merge": st.booleans(), "scalar": st.sampled_from([False, False, False, True])}


def evol_case(case, rec):
    r = case["rows"][:1] if case["scalar"] else case["rows"]
    m1, m2, a, b, e, tm = si(r)
    vs = case["vars"]
    top = case["top"] if case["avoid"] else min(case["top"], 0.9)
    kw, shape = {}, case["shape"]
    if shape in ("1d", "2d"):
        t = np.linspace(0, top, case["n_step"])
        t = t * tm.min() if shape == "1d" else t[None, :] * tm[:, None]
        kw["timesteps"] = q(t, "s", case["unit"])
    elif shape != "merger":
        T = top * (tm if shape == "t_evol_each" else tm.min())
        kw.update(t_evol=q(T[0] if case["scalar"] and np.ndim(T) else T, "s", case["unit"]), n_step=case["n_step"])
    else:
        kw["n_step"] = case["n_step"]
    kw["avoid_merger"] = case["avoid"] or shape == "merger"
    kw["t_before"] = 0.02 * tm.min() * u.s
    if case["merge"]:
        kw["t_merge"] = (tm[0] if case["scalar"] else tm) * u.s
    kw.update(dict(beta=b * u.m**4 / u.s) if case["beta"] and not {"f_orb", "f_GW"} & set(vs) else dict(m_1=m1 * u.kg, m_2=m2 * u.kg))
    kw.update(a_i=a * u.m, ecc_i=e)
    if case["scalar"]:
        for k in ("m_1", "m_2", "beta", "a_i", "ecc_i"):
            if k in kw:
                kw[k] = kw[k][0]
    kw["output_vars"] = vs
    with quiet():
        want = evol.evol_ecc(n_proc=1, **kw)
        for p in case["procs"]:
            batch_labels(rec, len(r), p)
            got = evol.evol_ecc(n_proc=p, **kw)
            if len(vs) == 1:
                same(got, want, "{} with {} processes".format(vs[0], p))
            else:
                check(len(got) == len(want) == len(vs), "number of outputs", got=len(got))
                for v, x, y in zip(vs, got, want):
                    same(x, y, "{} with {} processes".format(v, p))
        same(evol.evol_ecc(**kw) if len(vs) == 1 else evol.evol_ecc(**kw)[0], want if len(vs) == 1 else want[0], "default number of processes")


@facet(P, "evolution", st.fixed_dictionaries(dict(EVOL, rows=rows(ROW, min_size=2, max_size=6))), 200, 3000,
       "evol_ecc over random batches (often fewer sources than processes), all time forms and outputs: bit-identical to one process; non-trivial: >= 2 sources",
       shards=2, thorough_shards=2)
def evolution(case, rec):
    evol_case(case, rec)


@facet(P, "large", st.fixed_dictionaries(dict(EVOL, rows=rows(ROW, min_size=8, max_size=60), scalar=st.just(False), n_step=st.sampled_from([2, 5, 20]))), 100, 1200,
       "the same for batches many times larger than the number of processes, compiled integrand; non-trivial: always", jit=True, thorough_shards=2)
def large(case, rec):
    evol_case(case, rec)


SROW = dict(ROW, x=logf(0.3, 1e4), d=logf(1., 1e4))


@facet(P, "snr", st.fixed_dictionaries({"rows": rows(SROW, min_size=2, max_size=9), "noise": NOISE, "T": st.sampled_from([1., 4., 5.]), "n_step": st.integers(3, 40), "n": st.integers(1, 20),
                                        "out": st.sampled_from(["snr", "max", "each"]), "proc": PROCS, "merge": st.booleans(), "scalar": st.sampled_from([False, False, False, True])}), 240, 3000,
       "snr_ecc_evolving of random batches, instruments and outputs: bit-identical to one process; non-trivial: >= 2 sources", shards=2, thorough_shards=2)
def snr_(case, rec):
    r = case["rows"][:1] if case["scalar"] else case["rows"]
    m1, m2, a, b, e, tm = si(r)
    tm = col(r, "x") * case["T"] * ref.YR
    a = np.array([(t / ref.t_merge(1.0, x, y))**0.25 for t, x, y in zip(tm, e, b)])
    kw = dict(m_1=m1 * u.kg, m_2=m2 * u.kg, f_orb_i=ref.forb(a, m1, m2) * u.Hz, dist=col(r, "d") * u.kpc, ecc=e)
    if case["merge"]:
        kw["t_merge"] = tm * u.s
    if case["scalar"]:
        kw = {k: v[0] for k, v in kw.items()}
    nk, _ = noise(case)
    kw.update(t_obs=case["T"] * u.yr, n_step=case["n_step"], harmonics_required=case["n"], **nk)
    if case["out"] == "max":
        kw["ret_max_snr_harmonic"] = True
    elif case["out"] == "each":
        kw["ret_snr2_by_harmonic"] = True
    batch_labels(rec, len(r), case["proc"])
    with quiet():
        want = snr.snr_ecc_evolving(n_proc=1, **kw)
        got = snr.snr_ecc_evolving(n_proc=case["proc"], **kw)
    if case["out"] == "max":
        same(got[0], want[0], "SNR")
        same(got[1], want[1], "loudest harmonic")
    else:
        same(got, want, case["out"])


# eccentric members that usually evolve during the observation
EV = st.tuples(coll.row(hi=0.9, circ=False), st.floats(0.2, 0.9), logf(2., 60.)).map(lambda t: dict(t[0], f=None, x=t[2], e=t[1], m1=max(t[0]["m1"], 0.5), m2=max(t[0]["m2"], 0.5)))


@facet(P, "sources", st.fixed_dictionaries({"rows": coll.members(st.lists(st.one_of(coll.row(x_lo=2.0), EV, EV), min_size=2, max_size=8)), "set": coll.SETTINGS, "proc": PROCS, "n_step": st.integers(3, 30),
                                            "t_obs": st.sampled_from([0.5, 1., 4.]), "fn": st.sampled_from(["get_snr", "get_snr_evolving", "evolve", "sliced", "saved"]),
                                            "mask": st.lists(st.booleans(), min_size=8, max_size=8), "masked": st.booleans(), "t": st.floats(0.01, 1.0)}), 120, 2000,
       "collections constructed with n_proc processes against the same with one: signal-to-noise ratios, loudest harmonics, in-place evolution, slices and reloaded "
       "collections; non-trivial: >= 2 eccentric evolving members", data=("harmonics",), shards=2, thorough_shards=2)
def sources(case, rec):
    import os
    import tempfile
    from legwork import source
    r, proc = case["rows"], case["proc"]
    s1, sp = coll.make(r, case["set"], n_proc=1), coll.make(r, case["set"], n_proc=proc)
    check(s1.n_proc == 1 and sp.n_proc == proc, "n_proc", got=(s1.n_proc, sp.n_proc))
    what = "{} with {} processes".format(case["fn"], proc)
    rec.label(case["fn"])
    t_obs = case["t_obs"] * u.yr
    with quiet():
        if case["fn"] == "evolve":
            for s in (s1, sp):
                s.evolve_sources(case["t"] * u.yr)
        elif case["fn"] == "sliced":
            idx = np.flatnonzero(case["mask"][:len(r)])
            if not len(idx):
                return
            s1, sp = s1[idx], sp[idx]
        elif case["fn"] == "saved":
            with tempfile.TemporaryDirectory() as tmp:
                sp.save(os.path.join(tmp, "s.h5"))
                s1 = source.Source.from_file(os.path.join(tmp, "s.h5"), n_proc=1)
                sp = source.Source.from_file(os.path.join(tmp, "s.h5"))
        check(s1.n_proc == 1 and sp.n_proc == proc, what + ": n_proc", got=(s1.n_proc, sp.n_proc))
        n_ev = int(sp.get_source_mask(circular=False, stationary=False, t_obs=t_obs).sum())
        rec.nontrivial(n_ev >= 2)
        rec.label("{} eccentric evolving".format(min(n_ev, 3)), *(["fewer sources than processes"] if n_ev < proc else []))
        kw = dict(t_obs=t_obs, n_step=case["n_step"])
        fn = "get_snr_evolving" if case["fn"] == "get_snr_evolving" else "get_snr"
        if case["masked"]:
            kw["which_sources"] = np.array(case["mask"][:s1.n_sources])
        same(getattr(sp, fn)(**kw), getattr(s1, fn)(**kw), what + ": SNR")
    for k in ("snr", "max_snr_harmonic", "t_merge", "f_orb", "ecc", "merged", "n_sources"):
        x, y = getattr(sp, k), getattr(s1, k)
        check((x is None) == (y is None), what + ": " + k, got=x, want=y)
        if x is not None:
            same(x, y, what + ": " + k)
    check(s1.n_proc == 1 and sp.n_proc == proc, what + ": n_proc afterwards", got=(s1.n_proc, sp.n_proc))
