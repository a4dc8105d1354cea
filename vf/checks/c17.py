"""C17 indexing and copying (stateful)"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import coll
from ..core import facet, check
from ..gen import close, quiet, raises, same
from legwork import source

P = "C17"
ARR = ["m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation", "t_merge", "snr", "max_snr_harmonic", "merged"]
SETTINGS = ["gw_lum_tol", "stat_tol", "n_proc", "interpolate_g", "interpolate_sc", "ecc_tol"]
KLASS = {"Source": source.Source, "Stationary": source.Stationary, "Evolving": source.Evolving}


def snapshot(s):
    out = {}
    for a in ARR:
        v = getattr(s, a)
        out[a] = None if v is None else (u.Quantity(v, copy=True) if isinstance(v, u.Quantity) else np.array(v, copy=True))
    p = s.position
    out["position"] = None if p is None else tuple(np.array(x) for x in (p.lon.to(u.rad).value, p.lat.to(u.rad).value, p.distance.to(u.kpc).value))
    out["settings"] = {k: getattr(s, k) for k in SETTINGS}
    out["sc_params"] = dict(s.sc_params)
    out["n"] = s.n_sources
    return out


def expect(s, snap, what):
    check(s.n_sources == snap["n"] == len(s), what + ": number of sources", got=(s.n_sources, len(s)), want=snap["n"])
    for a in ARR:
        v = getattr(s, a)
        if snap[a] is None:
            check(v is None, "{}: {} appeared".format(what, a), got=v)
        else:
            check(v is not None, "{}: {} is missing".format(what, a))
            same(v if isinstance(v, u.Quantity) else np.asarray(v), snap[a], "{}: {}".format(what, a))
    if snap["position"] is None:
        check(s.position is None, what + ": position appeared")
    else:
        check(s.position is not None, what + ": position is missing")
        for x, y in zip((s.position.lon.to(u.rad).value, s.position.lat.to(u.rad).value, s.position.distance.to(u.kpc).value), snap["position"]):
            close(x, y, 1e-12, what=what + ": position")
    for k in SETTINGS:
        check(getattr(s, k) == snap["settings"][k], "{}: {}".format(what, k), got=getattr(s, k), want=snap["settings"][k])
    check(dict(s.sc_params) == snap["sc_params"], what + ": sc_params", got=dict(s.sc_params), want=snap["sc_params"])


def take(snap, idx):
    out = dict(snap)
    for a in ARR:
        out[a] = None if snap[a] is None else snap[a][idx]
    if snap["position"] is not None:
        out["position"] = tuple(x[idx] for x in snap["position"])
    out["n"] = len(out["m_1"])
    return out


INT = st.integers(-5, 4)
OPT = st.one_of(st.none(), st.integers(-6, 6))
INDEX = st.one_of(
    st.tuples(st.just("int"), INT), st.tuples(st.just("npint"), INT), st.tuples(st.just("slice"), st.tuples(OPT, OPT, st.sampled_from([None, 1, 2, -1, -2, 3]))),
    st.tuples(st.just("list"), st.lists(INT, min_size=1, max_size=6)), st.tuples(st.just("array"), st.lists(INT, min_size=1, max_size=6)),
    st.tuples(st.just("perm"), st.permutations(range(6))), st.tuples(st.just("rotate"), st.tuples(INT, st.sampled_from([1, 2, 5]))),
    st.tuples(st.just("mask"), st.lists(st.booleans(), min_size=12, max_size=12)),
    st.tuples(st.just("masklist"), st.lists(st.booleans(), min_size=12, max_size=12)), st.tuples(st.just("copy"), st.none()))
OP = st.one_of(
    st.tuples(st.just("index"), INDEX), st.tuples(st.just("index"), INDEX), st.tuples(st.just("snr"), st.sampled_from([0.5, 4.])),
    st.tuples(st.just("merger"), st.booleans()), st.tuples(st.just("evolve"), st.sampled_from([0.5, 10., 1e4])),
    st.tuples(st.just("tol"), st.sampled_from([0.02, 0.05, 0.1])), st.tuples(st.just("sc"), st.sampled_from([["instrument", "TianQin"], ["approximate_R", True], ["t_obs", 2.0]])),
    st.tuples(st.just("write"), st.tuples(st.sampled_from(["m_1", "m_2", "dist", "f_orb", "weights", "inclination", "polarisation", "t_merge", "snr", "max_snr_harmonic", "merged"]),
                                          st.integers(0, 5))),
    st.tuples(st.just("assign"), st.sampled_from(["stat_tol", "n_proc", "weights", "a"])),
    st.tuples(st.just("bad"), st.sampled_from(["short", "long", "float", "floats", "strings", "none", "high", "low", "highlist"])),
).flatmap(lambda o: st.tuples(st.integers(0, 5), st.just(o[0]), st.just(o[1])))


def index(arg, n):
    kind, v = arg
    fit = lambda k: max(-n, min(n - 1, k))
    if kind == "int":
        return fit(v), [fit(v)]
    if kind == "npint":
        return np.int64(fit(v)), [fit(v)]
    if kind == "slice":
        return slice(*v), slice(*v)
    if kind == "list":
        x = [fit(k) for k in v]
        return x, x
    if kind == "perm":
        # a rearrangement of all rows
        x = [k for k in v if k < n]
        x += list(range(6, n))
        return np.array(x), x
    if kind == "rotate":
        # all rows, some of them counted from the end, possibly with repetitions
        x = [(v[0] + v[1] * k) % n - (n if k % 2 else 0) for k in range(n)]
        return x, x
    if kind == "array":
        x = np.array([fit(k) for k in v])
        return x, x
    m = (v + v)[:n] if v else None
    return (np.array(m), np.array(m)) if kind == "mask" else (list(m), np.array(m))


CASE = st.fixed_dictionaries({"rows": coll.collection(max_size=5), "set": coll.SETTINGS, "sky": st.booleans(), "klass": st.sampled_from(sorted(KLASS)),
                              "ops": st.lists(OP, min_size=2, max_size=12)})


@facet(P, "history", CASE, 480, 9000,
       "random histories of indexing, copying, SNRs, merger times, evolution, tolerance / noise changes and in-place writes over up to six "
       "related collections, all judged after every step; non-trivial: >= 1 derived collection and a change after it",
       data=("harmonics",), shards=4, thorough_shards=8)
def history(case, rec):
    rws = [dict(r, e=0.0) for r in case["rows"]] if case["sky"] else case["rows"]
    klass = KLASS[case["klass"]]
    with quiet():
        objs = [coll.make(rws, case["set"], klass, case["sky"])]
        snaps = [snapshot(objs[0])]
        derived = changed = False
        for step, (tgt, name, arg) in enumerate(case["ops"]):
            i = tgt % len(objs)
            s, n = objs[i], objs[i].n_sources
            what = "step {} ({})".format(step, name)
            rec.label(name)
            touched = True
            if name == "index":
                touched = False
                if n == 0 or len(objs) >= 6:
                    continue
                if arg[0] == "copy":
                    new, want = s.copy(), snaps[i]
                else:
                    ind, ref = index(arg, n)
                    keep = list(ind) if isinstance(ind, list) else ind
                    new, want = s[ind], take(snaps[i], ref)
                    check(not isinstance(ind, list) or ind == keep, what + ": the index was changed")
                rec.label(arg[0])
                check(type(new) is klass, what + ": type", got=type(new), want=klass)
                objs.append(new)
                snaps.append(want)
                derived = True
            elif name == "bad":
                touched = False
                if arg == "short" and n == 0:
                    continue            # (there is no shorter mask)
                ind, exc = {"short": (np.ones(max(n - 1, 0), bool), ValueError), "long": ([True] * (n + 1), ValueError), "float": (0.5, (ValueError, TypeError, IndexError)),
                            "floats": ([0.0, 1.0], ValueError), "strings": (["0"], ValueError), "none": (None, (ValueError, TypeError, IndexError)), "high": (n, IndexError),
                            "low": (-n - 1, IndexError), "highlist": ([0, n], IndexError)}[arg]
                raises(exc, lambda: s[ind], what + " with index {!r} for {} sources".format(ind, n))
            elif n == 0:
                continue
            elif name == "snr":
                kw = {} if klass is source.Stationary else {"n_step": 3}
                s.get_snr(t_obs=arg * u.yr, **kw)
            elif name == "merger":
                s.get_merger_time(exact=arg)
            elif name == "evolve":
                s.evolve_sources(arg * u.yr)
            elif name == "tol":
                s.gw_lum_tol = arg
            elif name == "sc":
                s.sc_params[arg[0]] = arg[1] * u.yr if arg[0] == "t_obs" else arg[1]
            elif name == "assign":
                if arg == "weights":
                    s.weights = np.arange(n) + 1.0
                elif arg == "a":
                    s.a = s.a * 1.5
                else:
                    setattr(s, arg, 0.05 if arg == "stat_tol" else 2)
                    s.n_proc = 1 if arg == "n_proc" and klass is source.Evolving else s.n_proc
                s.n_proc = 1
            elif name == "write":
                a, k = arg
                v = getattr(s, a)
                if v is None:
                    continue
                if a == "merged":
                    v[k % n] = ~v[k % n]
                elif a == "max_snr_harmonic":
                    v[k % n] += 1
                elif a == "snr":
                    v[k % n] += 1.0
                else:
                    v[k % n] = v[k % n] * 1.01
            if touched:
                changed = changed or derived
                new = snapshot(s)
                for a in ("m_1", "m_2", "dist"):
                    if name not in ("write",):
                        same(new[a], snaps[i][a], what + ": " + a)
                snaps[i] = new
            for j, (o, sn) in enumerate(zip(objs, snaps)):
                expect(o, sn, "{}, collection {}{}".format(what, j, "" if j == i else " (another collection)"))
        rec.nontrivial(derived and changed)
        # whatever happened, the collections still compute what their members say
        for o in objs:
            if o.n_sources:
                close(o.m_c.to(u.Msun).value, ((o.m_1 * o.m_2)**0.6 / (o.m_1 + o.m_2)**0.2).to(u.Msun).value, 1e-12, what="chirp mass")
                before = snapshot(o)
                if not o.merged.all():
                    h = o.get_h_0_n([1, 2, 3])
                    k = int(np.flatnonzero(~o.merged)[0])
                    close(o[k].get_h_0_n([1, 2, 3])[0], h[k], 1e-12, what="strain of an indexed member")
                expect(o, before, "after computing strains")


@facet(P, "results", st.fixed_dictionaries({"rows": coll.collection(max_size=6, min_size=2), "set": coll.SETTINGS, "sky": st.booleans(), "index": INDEX,
                                            "chain": st.lists(INDEX, max_size=2), "T": st.sampled_from([None, 1., 4.])}), 150, 3000,
       "what an indexed collection computes (SNR, strain, merger time, masks) equals the indexed results of the original; non-trivial: >= 2 sources kept",
       data=("harmonics",), shards=2, thorough_shards=6)
def results(case, rec):
    rws = [dict(r, e=0.0) for r in case["rows"]] if case["sky"] else case["rows"]
    with quiet():
        s = coll.make(rws, case["set"], None, case["sky"])
        idx = np.arange(s.n_sources)
        sub = s
        for arg in [case["index"]] + case["chain"]:
            if sub.n_sources == 0:
                return
            if arg[0] == "copy":
                sub = sub.copy()
            else:
                ind, r = index(arg, sub.n_sources)
                sub, idx = sub[ind], idx[r]
        check(sub.n_sources == len(idx), "number of sources", got=sub.n_sources, want=len(idx))
        if not len(idx):
            return
        rec.nontrivial(len(set(idx.tolist())) > 1)
        kw = {} if case["T"] is None else {"t_obs": case["T"] * u.yr}
        for c in (None, True, False):
            for t in (None, True, False):
                same(np.asarray(sub.get_source_mask(circular=c, stationary=t, **kw)), np.asarray(s.get_source_mask(circular=c, stationary=t, **kw))[idx], "mask")
        close(sub.get_h_0_n([1, 2, 4]), s.get_h_0_n([1, 2, 4])[idx], 1e-12, what="h_0_n")
        close(sub.get_h_c_n([2, 3]), s.get_h_c_n([2, 3])[idx], 1e-12, what="h_c_n")
        close(sub.get_merger_time(save_in_class=False).to(u.yr).value, s.get_merger_time(save_in_class=False).to(u.yr).value[idx], 1e-12, what="merger time")
        close(sub.get_snr_stationary(**kw), np.asarray(s.get_snr_stationary(**kw))[idx], 1e-9, what="stationary SNR")
        same(np.asarray(sub.max_snr_harmonic), np.asarray(s.max_snr_harmonic)[idx], "loudest harmonic")
        close(sub.a.to(u.m).value, s.a.to(u.m).value[idx], 1e-13, what="separation")
