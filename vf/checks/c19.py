"""C19 evolving a collection (stateful)"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check
from ..gen import close, quiet, same, unit
from .c17 import KLASS, expect, snapshot
from legwork import source

P = "C19"
FR = st.one_of(st.floats(1e-6, 0.9), st.floats(0.3, 1.5), st.sampled_from([0.0, 0.5, 0.97, 1.02, 3.0]), st.floats(-9, -2).map(lambda x: float(10**x)))
LEG = st.fixed_dictionaries({"kind": st.sampled_from(["min", "max", "median", "each", "each", "exactly", "list1"]), "fr": st.lists(FR, min_size=5, max_size=5),
                             "new": st.booleans(), "unit": unit("time")})
OP = st.one_of(st.tuples(st.just("leg"), LEG), st.tuples(st.just("leg"), LEG), st.tuples(st.just("leg"), LEG), st.tuples(st.just("merger"), st.booleans()),
               st.tuples(st.just("snr"), st.none()), st.tuples(st.just("copy"), st.none()))


def start(case):
    rws = [dict(r, e=0.0) for r in case["rows"]] if case["sky"] else case["rows"]
    s = coll.make(rws, case["set"], KLASS[case.get("klass", "Source")], case["sky"])
    m1, m2, _, e, d = coll.arrays(rws, float(s.ecc_tol))
    m1, m2, f = m1 * ref.MSUN, m2 * ref.MSUN, s.f_orb.to(u.Hz).value
    a, b = ref.sma(f, m1, m2), ref.beta(m1, m2)
    return s, dict(m1=m1, m2=m2, a=a, b=b, e=e, tm=np.array([ref.t_merge(*x) for x in zip(a, e, b)]), t=np.zeros(len(e)),
                   gone=np.zeros(len(e), bool), n=len(e), legs=0)


def orbit_now(s):
    return ref.sma(s.f_orb.to(u.Hz).value, s.m_1.to(u.kg).value, s.m_2.to(u.kg).value)


def branch_time(s):
    """the documented estimate of the remaining merger times"""
    a = orbit_now(s)
    b = ref.beta(s.m_1.to(u.kg).value, s.m_2.to(u.kg).value)
    return np.array([0.0 if g else ref.t_merge_branch(x, y, z) for x, y, z, g in zip(a, s.ecc, b, s.merged)])


def judge(s, m, what):
    """the state of the collection is that of the model"""
    same(np.asarray(s.merged), m["gone"], what + ": merged members")
    ecc, f = np.asarray(s.ecc), s.f_orb.to(u.Hz).value
    check(ecc.shape == f.shape == (m["n"],), what + ": shape")
    for i in range(m["n"]):
        w = "{}: member {} (e={:.3g})".format(what, i, m["e"][i])
        if m["gone"][i]:
            check(ecc[i] == 0.0 and f[i] == 100.0, w + ": state of a merged member", got=(ecc[i], f[i]))
            continue
        x = m["t"][i] / m["tm"][i]
        fa = ref.forb(m["a"][i], m["m1"][i], m["m2"][i])
        check(np.isfinite(f[i]) and np.isfinite(ecc[i]) and 0 <= ecc[i] < 1, w + ": not a state", got=(ecc[i], f[i]))
        check(f[i] >= fa * (1 - 1e-7) and ecc[i] <= m["e"][i] * (1 + 1e-9), w + ": moved outwards", got=(ecc[i], f[i]))
        if x > 0.985:
            continue
        if m["e"][i] == 0:
            check(ecc[i] == 0, w + ": became eccentric", got=ecc[i])
            close(f[i], fa * (1 - x)**(-3. / 8), 1e-9 * (1 + m["legs"]) / (1 - x), what=w + ": frequency")
        else:
            want = ref.ecc_at(m["a"][i], m["e"][i], m["b"][i], m["t"][i])
            tol = (3e-5 if x <= 0.9 else 5e-4) * max(1, m["legs"])
            close(ecc[i], want, tol, what="{}: eccentricity after {:.4g} of its merger time".format(w, x))
            aa = ref.c0(m["a"][i], m["e"][i]) * ref.shape_e(ecc[i])
            close(f[i], ref.forb(aa, m["m1"][i], m["m2"][i]), 1e-7 * (1 + m["legs"]), what=w + ": frequency")


def judge_merged_quiet(s, m, what):
    h, hc = s.get_h_0_n([1, 2, 3]), s.get_h_c_n([2, 4])
    g = m["gone"]
    check(np.all(np.asarray(h)[g] == 0) and np.all(np.asarray(hc)[g] == 0), what + ": merged members have strain")
    check(np.all(np.asarray(h)[~g].max(axis=1) > 0) if (~g).any() else True, what + ": inspiralling members have no strain", h=h)
    t = s.get_merger_time(save_in_class=False).to(u.s).value
    check(np.all(t[g] == 0), what + ": merged members have time to merger", t=t)


def length(leg, s, rem, step):
    """t_evol quantity [unit], per-member seconds"""
    n = s.n_sources
    live = rem[rem > 0]
    kind, fr = leg["kind"], np.array((leg["fr"] * n)[:n])
    if kind == "exactly" and s.t_merge is None:
        kind = "each"
    if kind == "exactly":
        return s.t_merge.copy(), rem.copy(), True
    if kind == "each":
        t = fr * np.where(rem > 0, rem, ref.YR)
        return (t * u.s).to(leg["unit"]), t, False
    base = ref.YR if not live.size else {"min": live.min(), "list1": live.min(), "max": live.max(), "median": float(np.median(live))}[kind]
    x = float(fr[0] * base)
    qn = (x * u.s).to(leg["unit"])
    if kind == "median":        # a numpy number of another type is a single time too
        if 1 <= qn.value < 1e15:
            qn = u.Quantity(int(qn.value), qn.unit, dtype=np.int64)
            x = float(qn.value) * qn.unit.to(u.s)
    if kind == "list1" and n == 1:
        qn = qn.reshape(1)
    return qn, np.full(n, x), False


@facet(P, "history", st.fixed_dictionaries({"rows": coll.collection(max_size=4, tol=True), "set": coll.SETTINGS, "sky": st.sampled_from([False, False, True]),
                                            "klass": st.sampled_from(["Source", "Source", "Stationary", "Evolving"]), "ops": st.lists(OP, min_size=1, max_size=6)}),
       640, 12000, "random histories of evolution legs (one time for all or one each, before, at and past merger, in place or into a new collection), merger time "
       "calculations, SNRs and copies, judged against the exact Peters trajectories after every step; non-trivial: >= 1 leg moves an inspiralling member",
       data=("harmonics",), shards=6, thorough_shards=8)
def history(case, rec):
    with quiet():
        s, m = start(case)
        recomputed = False
        for step, (name, arg) in enumerate(case["ops"]):
            what = "step {} ({})".format(step, name)
            if name == "copy":
                s = s.copy()
            elif name == "snr":
                kw = {} if isinstance(s, source.Stationary) else {"n_step": 3}
                snr = s.get_snr(**kw)
                check(np.all(np.asarray(snr)[m["gone"]] == 0) and np.all(np.asarray(s.snr)[m["gone"]] == 0), what + ": merged members have an SNR", snr=snr)
            elif name == "merger":
                s.get_merger_time()
                close(s.t_merge.to(u.s).value, branch_time(s), 2e-6, what=what + ": merger times")
                recomputed = recomputed or m["legs"] > 0
            else:
                known = s.t_merge is not None
                rem = s.t_merge.to(u.s).value if known else branch_time(s)
                qn, t, exact = length(arg, s, rem, step)
                what += " of kind {}, fractions {}".format(arg["kind"], np.round(t / np.where(rem > 0, rem, np.inf), 9))
                near = np.abs(t - rem) <= 1e-5 * m["tm"]
                if not exact and (near & (rem > 0)).any():
                    rec.label("too close to the merger to call (skipped)")
                    return
                rec.label(arg["kind"], "new" if arg["new"] else "in place")
                keep, before = qn.copy(), snapshot(s)
                if arg["new"]:
                    twin = s.copy()
                    new = s.evolve_sources(qn, create_new_class=True)
                    before["t_merge"] = None if s.t_merge is None else before["t_merge"] if known else s.t_merge.copy()
                    expect(s, before, what + ", the original")
                    check(isinstance(new, source.Source) and new is not s, what + ": no new collection", got=new)
                    twin.evolve_sources(qn)
                    a, b = snapshot(new), snapshot(twin)
                    b["snr"], b["max_snr_harmonic"] = a["snr"], a["max_snr_harmonic"]
                    expect(new, b, what + ": new collection against one evolved in place")
                    s = new
                else:
                    out = s.evolve_sources(qn)
                    check(out is None, what + ": returned something", out=out)
                    after = snapshot(s)
                    for k in ("m_1", "m_2", "dist", "weights", "inclination", "polarisation", "position", "settings", "sc_params", "n"):
                        check(k in ("position", "settings", "sc_params", "n") or (before[k] is None) == (after[k] is None), what + ": " + k)
                        if isinstance(before[k], np.ndarray):
                            same(after[k], before[k], what + ": " + k)
                        elif k in ("settings", "sc_params", "n"):
                            check(after[k] == before[k], what + ": " + k, got=after[k], want=before[k])
                same(qn, keep, "the evolution time")
                moved = (t > 0) & ~m["gone"]
                rec.nontrivial(bool((moved & (t < rem)).any()))
                m["gone"] = m["gone"] | (t >= rem)
                rec.label(*(["some merge"] if (m["gone"] & moved).any() else []))
                m["t"] = m["t"] + t
                m["legs"] += 1
                close(s.t_merge.to(u.s).value, np.maximum(rem - t, 0), 1e-9 if known else 2e-6, 1e-9 * rem if known else 2e-6 * m["tm"],
                      what + ": remaining merger times")
                check(np.all(s.t_merge.value >= 0), what + ": negative merger time", t=s.t_merge)
                same(s.t_merge.value == 0, m["gone"], what + ": no time left exactly for merged members")
            judge(s, m, what)
        judge_merged_quiet(s, m, "at the end")
        if not recomputed and m["legs"] > 1:
            one, _ = start(case)
            tot = m["t"]
            est = branch_time(one)
            if not (np.abs(tot - est) <= 1e-5 * m["tm"]).any():
                one.evolve_sources(tot * u.s)
                rec.label("compared with one leg")
                same(np.asarray(one.merged), m["gone"], "merged members after one leg of the same total length")
                judge(one, m, "one leg of the same total length")


def GIVEN_G(n, e):
    return n * e


def GIVEN_SC(f):
    return 2 * f


@facet(P, "independent", st.fixed_dictionaries({"rows": coll.collection(max_size=5, min_size=2), "set": coll.SETTINGS, "fr": st.lists(FR, min_size=5, max_size=5),
                                                "each": st.booleans(), "new": st.booleans(), "write": st.sampled_from(["m_1", "dist", "ecc", "f_orb", "weights", "t_merge", "merged"])}),
       150, 4000, "each member evolves as it does alone, and a new collection shares no state with its origin; non-trivial: >= 1 member still inspirals",
       data=("harmonics",), shards=2, thorough_shards=6)
def independent(case, rec):
    with quiet():
        s, m = start(dict(case, sky=False))
        n = m["n"]
        s.g, s.sc = GIVEN_G, GIVEN_SC
        rem = branch_time(s)
        fr = np.array(case["fr"][:n])
        t = fr * rem if case["each"] else np.full(n, fr[0] * np.median(rem))
        if (np.abs(t - rem) <= 1e-5 * rem).any():
            return
        tq = t * u.s if case["each"] else float(t[0]) * u.s
        alone = []
        for i in range(n):
            x = s[i]
            x.evolve_sources(float(t[i]) * u.s)
            alone.append((float(x.ecc[0]), x.f_orb.to(u.Hz).value[0], bool(x.merged[0]), x.t_merge.to(u.s).value[0]))
        new = s.evolve_sources(tq, create_new_class=True) if case["new"] else s.copy()
        if not case["new"]:
            new.evolve_sources(tq)
        check(s.g is GIVEN_G and s.sc is GIVEN_SC, "the functions in use by the original were replaced", g=s.g, sc=s.sc)
        check(getattr(new, "g", 0) is not None and callable(new.g) and new.g(2, 0.25) == 0.5 and callable(new.sc) and new.sc(3.) == 6.,
              "the functions in use are not those of the original", g=new.g, sc=new.sc)
        ea, fa, ma, ta = (np.array(z) for z in zip(*alone))
        rec.nontrivial(bool((~ma).any()))
        same(np.asarray(new.merged), ma, "merged members, batch against alone")
        close(new.ecc, ea, 1e-6, what="eccentricity, batch against alone")
        close(new.f_orb.to(u.Hz).value, fa, 1e-6, what="frequency, batch against alone")
        close(new.t_merge.to(u.s).value, ta, 1e-9, 1e-9 * rem, "merger time, batch against alone")
        for src, dst in ((s, new), (new, s)):
            sn = snapshot(dst)
            v = getattr(src, case["write"])
            if v is not None:
                v[0] = ~v[0] if case["write"] == "merged" else v[0] * 1.5
            src.sc_params["t_obs"] = 2 * u.yr
            expect(dst, sn, "after writing to {} of the other collection".format(case["write"]))
