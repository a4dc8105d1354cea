"""C16 the noise curve in use always matches the stated parameters (stateful)"""
import copy

import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check, overlay_dir
from ..gen import close, quiet, raises, same
from legwork import psd, source

P = "C16"
F = np.array([3e-4, 1.1e-3, 2e-3, 3e-3, 2e-2, 0.3])
KEYS = ["instrument", "custom_psd", "t_obs", "L", "approximate_R", "confusion_noise"]
DEFAULT = {"instrument": "LISA", "custom_psd": None, "t_obs": "auto", "L": "auto", "approximate_R": False, "confusion_noise": "auto"}


def mine(k):
    def f(f, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto"):
        T = 3. if isinstance(t_obs, str) else t_obs.to(u.yr).value
        # depends on every parameter it is given
        k_L = 1. if isinstance(L, str) or L is None else L.to(u.m).value / 1e9
        k_cn = 1. if confusion_noise is None else (1.7 if callable(confusion_noise) else 1 + 0.1 * len(confusion_noise))
        return (k + T) * k_L * k_cn * (1.3 if approximate_R else 1.) * 1e-41 * (1 + (1e-3 / f.to(u.Hz).value)**4) / u.Hz
    return f


def cn(f, t_obs):
    f = f.to(u.Hz).value if isinstance(f, u.Quantity) else f
    return np.full(np.shape(f), 1e-38) / u.Hz


FUNCS = {"psdA": mine(1.), "psdB": mine(10.), "cn": cn}
VALUES = {
    "instrument": ["LISA", "TianQin", "DECIGO", "custom", "LISA", "TianQin"], "custom_psd": [None, "psdA", "psdB"],
    "t_obs": ["auto", 0.5, 2.0, 4.0, 5.0], "L": ["auto", 1.5e9, 2.5e9, 3e9], "approximate_R": [False, True],
    "confusion_noise": ["auto", None, "robson19", "karnesis21", "huang20", "thiele21", "cn"]}


def real(key, v):
    if isinstance(v, str) and v in FUNCS:
        return FUNCS[v]
    if key == "t_obs" and not isinstance(v, str):
        return v * u.yr if v != 2.0 else (2 * u.yr).to(u.d)
    if key == "L" and not isinstance(v, str):
        return v * u.m if v != 3e9 else 3e6 * u.km
    return v


def params(d):
    return {k: real(k, v) for k, v in d.items()}


SOME = st.lists(st.sampled_from(KEYS).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(VALUES[k]))), min_size=1, max_size=3).map(dict)
ONE = st.sampled_from(KEYS).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(VALUES[k]))).map(list)
FN = st.sampled_from(["get_snr", "get_snr_stationary", "get_snr_evolving"])
BAD = st.sampled_from([["instrument", "VIRGO"], ["confusion_noise", "nobody99"], ["t_obs", "units"], ["nonsense", 1], ["T_obs", 4.0]])
OP = st.one_of(
    st.tuples(st.just("set"), ONE), st.tuples(st.just("update"), SOME), st.tuples(st.just("update_kw"), SOME), st.tuples(st.just("ior"), SOME),
    st.tuples(st.just("setdefault"), ONE), st.tuples(st.just("replace"), st.one_of(SOME, st.none())),
    st.tuples(st.just("snr"), st.tuples(FN, st.one_of(SOME, st.just({})))), st.tuples(st.just("bad"), st.tuples(BAD, st.sampled_from(["set", "update", "ior", "replace", "snr"]))),
    st.tuples(st.just("remove"), st.tuples(st.sampled_from(KEYS), st.sampled_from(["del", "pop", "popitem", "clear"]))),
    st.tuples(st.just("copy"), st.sampled_from(["copy", "index", "evolve", "params"])), st.tuples(st.just("same"), st.just(0)),
    st.tuples(st.just("tol"), st.sampled_from([0.05, 0.1])), st.tuples(st.just("evolve"), st.sampled_from([1.0, 1e12])),
).flatmap(lambda op: st.tuples(st.integers(0, 2), st.just(op[0]), st.just(op[1])))
CASE = st.fixed_dictionaries({"start": st.one_of(st.none(), SOME), "interp": st.sampled_from([True, True, True, False]),
                              "ops": st.lists(OP, min_size=1, max_size=8)})


def build(sc_params, interp=True, **kw):
    if sc_params is not None:
        kw["sc_params"] = sc_params
    return source.Source(m_1=[10., 30.] * u.Msun, m_2=[5., 30.] * u.Msun, ecc=np.zeros(2), dist=[8., 100.] * u.kpc, f_orb=[6e-4, 1e-2] * u.Hz,
                         interpolate_g=False, interpolate_sc=interp, **kw)


def usable(p):
    try:
        psd.power_spectral_density(F * u.Hz, **p)
        return True
    except Exception:
        return False


def scorable(p):
    """get_snr* turn an automatic observation time into 4 (LISA) or 5 years before anything else"""
    auto = isinstance(p["t_obs"], str)
    return usable(dict(p, t_obs=(4 if p["instrument"] == "LISA" else 5) * u.yr) if auto else p)


def pending(p):
    return p["instrument"] == "custom" and p["custom_psd"] is None


def same_value(a, b):
    if callable(a) or callable(b) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a is b or (type(a) is type(b) and a == b)
    return bool(a == b)


def expect(s, model, what):
    rep = dict(s.sc_params)
    check(sorted(rep) == sorted(KEYS), what + ": parameters stored", got=sorted(rep))
    for k in KEYS:
        check(same_value(rep[k], model[k]), "{}: parameter {}".format(what, k), got=rep[k], want=model[k])


def blind(x):
    """frequencies at which an instrument sees nothing: infinite or practically infinite noise"""
    return np.where(x >= 1e20, np.inf, x)


def curve(s, what):
    """the curve in use equals the noise of the reported parameters"""
    rep = dict(s.sc_params)
    if not s.interpolate_sc:
        return
    if pending(rep):
        check(s.sc is None, what + ": a noise curve without a custom PSD")
        return
    check(s.sc is not None, what + ": no noise curve")
    got = blind(s.sc(F * u.Hz).to(1 / u.Hz).value)
    close(got, blind(psd.power_spectral_density(F * u.Hz, **rep).to(1 / u.Hz).value), 5e-3, what=what + ": noise curve")
    if rep["instrument"] != "custom" and rep["confusion_noise"] is not cn and rep["confusion_noise"] != "thiele21":
        T = None if isinstance(rep["t_obs"], str) else rep["t_obs"].to(u.yr).value
        L = None if isinstance(rep["L"], str) else rep["L"].to(u.m).value
        want = ref.psd(F, rep["instrument"], T, L, rep["approximate_R"], rep["confusion_noise"], overlay_dir())
        close(got, want, 5e-3, what=what + ": noise curve against the reference")


@facet(P, "history", CASE, 260, 6000,
       "random histories of parameter changes (item, update, |=, setdefault, replacement, SNR arguments, rejected changes, removal, "
       "copies) over up to three collections; after every step every collection is judged; non-trivial: >= 2 accepted changes",
       data=("harmonics",), shards=4, thorough_shards=8)
def history(case, rec):
    start = None if case["start"] is None else params(case["start"])
    first = dict(DEFAULT, **(start or {}))
    interp = case["interp"]
    if not (usable(first) or (pending(first))) and interp:
        # the constructor rejects it
        try:
            build(start, interp)
        except Exception:
            return
        check(False, "parameters without a noise curve accepted", params=first)
    given = None if start is None else dict(start)
    objs = [build(start, interp)]
    models = [dict(first)]
    check(start == given, "the caller's dictionary was changed")
    accepted = 0
    with quiet():
        for step, (tgt, name, arg) in enumerate(case["ops"]):
            i = tgt % len(objs)
            s, m = objs[i], models[i]
            what = "step {} ({})".format(step, name)
            rec.label(name)
            if name == "same":
                before = s.sc
                s.sc_params.update(dict(m))
                s.sc_params = dict(m)
            elif name == "tol":
                s.gw_lum_tol = arg
            elif name == "evolve":
                s.evolve_sources(arg * u.yr)        # (by the longer time everything merges)
            elif name == "copy":
                if len(objs) < 3:
                    if arg == "copy":
                        new = s.copy()
                    elif arg == "index":
                        new = s[::-1]
                    elif arg == "evolve":
                        new = s.evolve_sources(1 * u.yr, create_new_class=True)
                    else:
                        if interp and not usable(m) and not pending(m):
                            continue
                        new = build(s.sc_params, interp)
                    objs.append(new)
                    models.append(dict(m))
            elif name == "remove":
                key, how = arg
                fn = {"del": lambda: s.sc_params.__delitem__(key), "pop": lambda: s.sc_params.pop(key),
                      "popitem": lambda: s.sc_params.popitem(), "clear": lambda: s.sc_params.clear()}[how]
                raises(TypeError, fn, what + " " + how)
            elif name == "bad":
                (key, v), how = arg
                v = 4.0 if v == "units" else v
                if key in KEYS and not interp:
                    continue            # a value is only tried out when the curve is interpolated
                if how == "snr" and key not in KEYS:
                    continue

                if key in KEYS and pending(dict(m, **{key: v})):
                    continue            # nothing can be tried without a custom PSD
                if usable(dict(m, **{key: v})) and key in KEYS:
                    continue            # e.g. a custom PSD ignores it

                def attempt():
                    if how == "set":
                        s.sc_params[key] = v
                    elif how == "update":
                        s.sc_params.update({key: v})
                    elif how == "ior":
                        s.sc_params |= {key: v}
                    elif how == "replace":
                        s.sc_params = dict(m, **{key: v})
                    else:
                        s.get_snr(**{key: v})
                raises(Exception if key in KEYS else KeyError, attempt, what + " {}={!r} by {}".format(key, v, how))
            else:
                if name == "snr":
                    fn, kw = arg
                    kw = {k: v for k, v in params(kw).items() if v is not None}       # None means "as it is"
                    new = dict(m, **kw)
                elif name in ("set", "setdefault"):
                    kw = params(dict([arg]))
                    new = dict(m, **kw) if name == "set" else dict(m)
                elif name == "replace":
                    kw = params(arg or {})
                    new = dict(DEFAULT, **kw)
                else:
                    kw = params(arg)
                    new = dict(m, **kw)
                ok = (scorable(new) or (pending(new) and bool(np.all(s.merged)))) if name == "snr" else usable(new) or pending(new)
                if not interp and not ok and name == "snr":
                    continue
                try:
                    if name == "snr":
                        getattr(s, fn)(**kw)
                    elif name == "set":
                        k, v = list(kw.items())[0]
                        s.sc_params[k] = v
                    elif name == "setdefault":
                        k, v = list(kw.items())[0]
                        got = s.sc_params.setdefault(k, v)
                        check(same_value(got, m[k]), what + ": value returned by setdefault", got=got, want=m[k])
                    elif name == "replace":
                        s.sc_params = kw if arg is not None else None
                    elif name == "update_kw":
                        s.sc_params.update(**kw)
                    elif name == "update":
                        s.sc_params.update(kw)
                    else:
                        s.sc_params |= kw
                except AssertionError:
                    raise
                except Exception as e:
                    if ok:
                        raise
                    rec.label("rejected")
                    if name == "snr" and pending(new):
                        new = dict(s.sc_params)     # nothing to score with: the parameters may or may not be kept
                        models[i] = new
                    expect(s, models[i], what + " after a rejected change")
                else:
                    check(ok or not interp or (name == "setdefault"), what + ": accepted although no noise can be computed", params=new)
                    if name == "snr" and isinstance(new["t_obs"], str):
                        # an "auto" observation time may be reported as the time it stands for
                        rep = s.sc_params["t_obs"]
                        want = (4 if new["instrument"] == "LISA" else 5) * u.yr
                        if not isinstance(rep, str):
                            check(rep == want, what + ": observation time that auto stands for", got=rep, want=want)
                            new["t_obs"] = rep
                    accepted += new != m
                    models[i] = new
            for j, (o, mm) in enumerate(zip(objs, models)):
                w = "{}, collection {}{}".format(what, j, "" if j == i else " (not the one changed)")
                expect(o, mm, w)
                curve(o, w)
        rec.nontrivial(accepted >= 2)
        for o, mm in zip(objs, models):
            if usable(mm):
                fresh = build(dict(mm), interp)
                if interp:
                    same(o.sc(F * u.Hz), fresh.sc(F * u.Hz), "noise curve against a fresh collection")
                if o.n_sources == 2 and not isinstance(mm["t_obs"], str):
                    a = o if np.array_equal(o.f_orb.value, fresh.f_orb.value) else None
                    if a is not None:
                        close(a.get_snr_stationary(), fresh.get_snr_stationary(), 1e-12, what="SNR against a fresh collection")


HOW = st.sampled_from(["set", "update", "update_kw", "ior", "replace", "get_snr", "get_snr_stationary", "get_snr_evolving"])


def change(s, how, full, kw):
    if how == "set":
        for k, v in kw.items():
            s.sc_params[k] = v
    elif how == "update":
        s.sc_params.update(kw)
    elif how == "update_kw":
        s.sc_params.update(**kw)
    elif how == "ior":
        s.sc_params |= kw
    elif how == "replace":
        s.sc_params = dict(full, **kw)
    else:
        getattr(s, how)(**kw)


@facet(P, "every_change", st.fixed_dictionaries({"base": st.fixed_dictionaries({k: st.sampled_from(sorted(set(v), key=str)) for k, v in VALUES.items()}), "how": HOW, "twice": st.booleans()}), 60, 1500,
       "from a random complete set of parameters (in which any may be irrelevant) every single parameter is changed to every other value, by a random route: each time the curve follows "
       "the reported parameters; all non-trivial", data=("harmonics",), shards=4, thorough_shards=8)
def every_change(case, rec):
    base = params(case["base"])
    if base["instrument"] == "custom" and base["custom_psd"] is None:
        base["custom_psd"] = FUNCS["psdA"]
    if not usable(base):
        base["confusion_noise"] = None
        if not usable(base):
            return
    rec.nontrivial()
    rec.label(base["instrument"], case["how"])
    with quiet():
        s = build(dict(base))
        for key in KEYS:
            for v in sorted(set(VALUES[key]), key=str):
                v = real(key, v)
                new = dict(base, **{key: v})
                if same_value(v, base[key]) or not usable(new) or (v is None and case["how"].startswith("get")):
                    continue
                if case["how"].startswith("get") and new["confusion_noise"] == "thiele21":
                    continue            # only fit for 4 years, which isn't what auto stands for with every instrument
                change(s, case["how"], base, {key: v})
                what = "{} changed to {!r} by {}".format(key, getattr(v, "__name__", v), case["how"])
                if not case["how"].startswith("get"):
                    expect(s, new, what)
                curve(s, what)
                if case["twice"]:
                    s.sc_params[key] = v
                    curve(s, what + " twice")
                s.sc_params = dict(base)
                expect(s, base, what + " and changed back")
                curve(s, what + " and changed back")


@facet(P, "standalone", st.fixed_dictionaries({"start": st.one_of(st.none(), SOME), "ops": st.lists(ONE, max_size=4), "copies": st.booleans()}),
       100, 2000, "SensitivityCurveParams on its own: defaults filled in, dict behaviour, copies independent, unknown keys rejected; "
       "non-trivial: some change")
def standalone(case, rec):
    start = None if case["start"] is None else params(case["start"])
    p = source.SensitivityCurveParams(start)
    m = dict(DEFAULT, **(start or {}))
    rec.nontrivial(bool(case["ops"]))
    q = copy.copy(p)
    m2 = dict(m)
    for k, v in case["ops"]:
        v = real(k, v)
        p[k] = v
        m[k] = v
    for obj, model in ((p, m), (q, m2)):
        check(sorted(obj) == sorted(KEYS) and len(obj) == len(KEYS), "keys", got=sorted(obj))
        for k in KEYS:
            check(same_value(obj[k], model[k]) and same_value(obj.get(k), model[k]), "value of " + k, got=obj[k], want=model[k])
    for bad in ({"nope": 1}, {"instrument": "LISA", "t_ob": 1}):
        raises(KeyError, lambda: source.SensitivityCurveParams(bad), "unknown parameter")
        raises(KeyError, lambda: p.update(bad), "unknown parameter by update")
        raises(KeyError, lambda: p.__ior__(bad), "unknown parameter by |=")
        raises(KeyError, lambda: p.setdefault("nope", 1), "unknown parameter by setdefault")
    for k in KEYS:
        check(same_value(p[k], m[k]), "value after rejected changes of " + k)
    check(source.Source is not None and dict(source.DEFAULT_SC_PARAMS) == DEFAULT, "the defaults were changed", got=source.DEFAULT_SC_PARAMS)


@facet(P, "toggle", st.fixed_dictionaries({"seq": st.lists(st.tuples(st.booleans(), ONE), min_size=1, max_size=5)}), 60, 1000,
       "interpolation switched on and off between parameter changes: the SNR follows the reported parameters; non-trivial: a switch",
       data=("harmonics",))
def toggle(case, rec):
    s, m, on = build(None), dict(DEFAULT), True
    with quiet():
        for sw, (k, v) in case["seq"]:
            v = real(k, v)
            new = dict(m, **{k: v})
            if not scorable(new):
                continue
            rec.nontrivial(sw != on)
            on = sw
            s.interpolate_sc = sw
            s.sc_params[k] = v
            m = new
            got = s.get_snr_stationary()
            m = dict(s.sc_params)
            check(all(same_value(m[x], new[x]) for x in KEYS if x != "t_obs"), "parameters after switching", got=m, want=new)
            want = build(dict(new), False).get_snr_stationary()
            close(got, want, 5e-3, what="SNR after switching interpolation {}".format("on" if sw else "off"))


@facet(P, "auto_time", st.fixed_dictionaries({"first": st.sampled_from(["LISA", "TianQin", "DECIGO"]),
                                              "second": st.sampled_from(["LISA", "TianQin", "DECIGO"]), "fn": FN}), 6, 20,
       "an SNR with one instrument and automatic observation time does not change what a later SNR with another instrument uses "
       "(known finding); non-trivial: the automatic times differ", data=("harmonics",), fixed=[{"first": "LISA", "second": "TianQin", "fn": "get_snr"}])
def auto_time(case, rec):
    auto = {"LISA": 4, "TianQin": 5, "DECIGO": 5}
    a, b = auto[case["first"]], auto[case["second"]]
    rec.nontrivial(a != b)
    with quiet():
        s, fresh = build(None), build(None)
        getattr(s, case["fn"])(instrument=case["first"])
        got = getattr(s, case["fn"])(instrument=case["second"])
        want = getattr(fresh, case["fn"])(instrument=case["second"])
        stale = getattr(build(None), case["fn"])(instrument=case["second"], t_obs=a * u.yr)
    if np.allclose(got, want, rtol=1e-9, atol=0):
        return
    check(not np.allclose(got, stale, rtol=1e-9, atol=0), "[known:auto-t_obs] the automatic observation time of an earlier instrument is kept",
          first=case["first"], second=case["second"], got=got, want=want)
    check(False, "SNR depends on an earlier SNR with another instrument", got=got, want=want)


ARGS = st.fixed_dictionaries({
    "base": st.fixed_dictionaries({k: st.sampled_from(sorted(set(v), key=str)) for k, v in VALUES.items()}),
    "new": st.fixed_dictionaries({k: st.sampled_from(sorted(set(v), key=str)) for k, v in VALUES.items()}),
    "given": st.one_of(st.sampled_from(KEYS).map(lambda k: [k]), st.lists(st.sampled_from(KEYS), min_size=1, max_size=6, unique=True)),
    "interp": st.sampled_from([False, False, True]), "fn": FN, "which": st.one_of(st.none(), st.lists(st.booleans(), min_size=4, max_size=4)), "sky": st.booleans()})


def mixed(p, interp, sky):
    """a stationary and an evolving, a circular and an eccentric source (all circular with positions)"""
    kw = {} if not sky else dict(position=SkyCoord(lon=[0.3, 1., 4., 5.] * u.rad, lat=[0.1, -1., 1.2, 0.5] * u.rad, frame="barycentrictrueecliptic"),
                                 inclination=[0.4, 1., 2., 3.] * u.rad, polarisation=[0., 1., 2., 3.] * u.rad)
    return source.Source(m_1=[0.6, 1e3, 0.6, 1e3] * u.Msun, m_2=[0.5, 4e2, 0.5, 4e2] * u.Msun, ecc=np.array([0., 0., 0.3, 0.3]) * (not sky), dist=[8., 100., 8., 100.] * u.kpc,
                         f_orb=[1e-3, 4e-3, 1.5e-3, 3e-3] * u.Hz, interpolate_g=False, interpolate_sc=interp, sc_params=p, **kw)


@facet(P, "arguments", ARGS, 240, 5000,
       "any subset of the noise parameters passed as arguments of get_snr*, the others set in the collection: the SNR is that of a collection in which all were set, and the "
       "collection reports them all afterwards; non-trivial: some argument differs from what was set", data=("harmonics",), shards=2, thorough_shards=6)
def arguments(case, rec):
    base, new = params(case["base"]), params(case["new"])
    new = {k: new[k] for k in case["given"] if new[k] is not None}
    for p in (base, new):
        if p.get("instrument") == "custom" and p.get("custom_psd") is None:
            p["custom_psd"] = FUNCS["psdA"]
    full = dict(base, **new)
    if full["instrument"] == "custom" and full["custom_psd"] is None:
        full["custom_psd"] = base["custom_psd"] = FUNCS["psdB"]
    if not usable(full) or not (usable(base) or not case["interp"]):
        full["confusion_noise"] = base["confusion_noise"] = None
        new.pop("confusion_noise", None)
    if not scorable(full) or not usable(base):
        return
    rec.nontrivial(any(not same_value(base[k], v) for k, v in new.items()))
    rec.label(case["fn"], "interpolated" if case["interp"] else "direct", *["given " + k for k in new])
    kw = {} if case["which"] is None else {"which_sources": np.array(case["which"])}
    if case["fn"] != "get_snr_stationary":
        kw["n_step"] = 4
    with quiet():
        a, b = mixed(base, case["interp"], case["sky"]), mixed(full, case["interp"], case["sky"])
        got, want = np.asarray(getattr(a, case["fn"])(**new, **kw)), np.asarray(getattr(b, case["fn"])(**kw))
    names = ", ".join("{}={!r}".format(k, getattr(v, "__name__", v)) for k, v in new.items())
    close(got, want, 1e-9, what="SNR with {} as arguments against a collection that has them set".format(names))
    close(np.asarray(a.snr), np.asarray(b.snr), 1e-9, what="snr attribute with {} as arguments".format(names))
    same(np.asarray(a.max_snr_harmonic), np.asarray(b.max_snr_harmonic), "loudest harmonics with {} as arguments".format(names))
    rep = dict(a.sc_params)
    if isinstance(full["t_obs"], str) and not isinstance(rep["t_obs"], str):
        full["t_obs"] = (4 if full["instrument"] == "LISA" else 5) * u.yr
    expect(a, full, "after an SNR with {} as arguments".format(names))
    curve(a, "after an SNR with {} as arguments".format(names))
