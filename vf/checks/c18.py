"""C18 saving and loading"""
import hashlib
import os
import shutil
import tempfile

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import coll
from ..core import facet, check
from ..gen import close, quiet, raises, same
from legwork import source
from .c16 import SOME, params, usable, FUNCS
from .c17 import ARR, KLASS, SETTINGS, expect, snapshot

P = "C18"
OVER = st.fixed_dictionaries({}, optional={"interpolate_sc": st.booleans(), "n_proc": st.integers(1, 3)})
CASE = {"rows": coll.collection(max_size=5), "set": coll.SETTINGS, "sky": st.booleans(), "klass": st.sampled_from(sorted(KLASS)),
        "units2": st.fixed_dictionaries({"m": st.sampled_from(["Msun", "kg", "Mjup", "g"]), "d": st.sampled_from(["kpc", "Mpc", "lyr", "km"]),
                                         "f": st.sampled_from(["Hz", "mHz", "1/yr", "1/d"])}),
        "sc_params": st.one_of(st.none(), SOME), "n_proc": st.sampled_from([1, 1, 2]),
        "before": st.lists(st.sampled_from(["snr", "snr2", "merger", "fit", "evolve", "evolve_long", "part", "index"]), max_size=4),
        "name": st.sampled_from(["out.h5", "out.hdf5", "out", "with.dot", "out.h5.bak", "a b.h5"]), "over": OVER, "cls": st.sampled_from(["Source", "own", "Stationary"])}


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf_c18_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def final(name):
    return name if name.endswith((".h5", ".hdf5")) else name + ".h5"


def digest(path):
    with open(path, "rb") as fh:
        return hashlib.sha1(fh.read()).hexdigest()


def build(case):
    rws = [dict(r, e=0.0) for r in case["rows"]] if case["sky"] else case["rows"]
    sp = params(case["sc_params"] or {})
    full = dict(source.DEFAULT_SC_PARAMS, **sp)
    # (the time that "auto" stands for in the SNR of a collection: 4 yr for LISA, otherwise 5 yr, which thiele21 refuses)
    if not (usable(full) and (full["t_obs"] != "auto" or full["instrument"] == "LISA" or usable(dict(full, t_obs=5 * u.yr)))):
        sp = {}
    s = coll.make(rws, case["set"], KLASS[case["klass"]], case["sky"], sc_params=sp, n_proc=1)
    un = case["units2"]
    s.m_1, s.dist, s.f_orb = s.m_1.to(un["m"]), s.dist.to(un["d"]), s.f_orb.to(un["f"])
    step = {} if case["klass"] == "Stationary" else {"n_step": 3}
    for op in case["before"]:
        if s.n_sources == 0:
            break
        if op == "snr":
            s.get_snr(**step)
        elif op == "snr2":
            if usable(dict(dict(s.sc_params), t_obs=2 * u.yr)):
                s.get_snr(t_obs=2 * u.yr, **step)
        elif op in ("merger", "fit"):
            s.get_merger_time(exact=op == "merger")
        elif op == "evolve":
            s.evolve_sources(1 * u.yr)
        elif op == "evolve_long":
            s.evolve_sources(np.logspace(0, 6, s.n_sources) * u.yr)
        elif op == "part":
            s.get_snr_stationary(which_sources=np.arange(s.n_sources) % 2 == 0)
        elif op == "index":
            s = s[::-1]
    s.n_proc = case["n_proc"]
    return s


@facet(P, "roundtrip", st.fixed_dictionaries(CASE), 240, 5000,
       "random collections (class, units, sky, weights, tolerances, noise parameters incl. quantities and custom functions, any prior "
       "computation) saved and loaded: identical members, settings and results; non-trivial: something had been computed or a "
       "noise parameter is not the default", data=("harmonics",), shards=4, thorough_shards=8)
def roundtrip(case, rec):
    with quiet() as io, scratch() as d:
        s = build(case)
        path = os.path.join(d, case["name"])
        before = snapshot(s)
        rec.nontrivial(any(before[k] is not None for k in ("t_merge", "snr")) or before["sc_params"] != source.DEFAULT_SC_PARAMS)
        rec.label(case["klass"], *case["before"])
        s.save(path)
        expect(s, before, "the saved collection itself")
        check(sorted(os.listdir(d)) == [final(case["name"])], "files created", got=os.listdir(d), want=final(case["name"]))
        mark = digest(os.path.join(d, final(case["name"])))
        klass = {"Source": source.Source, "own": KLASS[case["klass"]], "Stationary": source.Stationary}[case["cls"]]
        want_class = KLASS[case["klass"]] if klass is source.Source else klass
        for name in (case["name"], final(case["name"])):
            new = klass.from_file(os.path.join(d, name), **case["over"])
            check(type(new) is want_class, "class after loading", got=type(new), want=want_class)
            want = dict(before, settings=dict(before["settings"]), sc_params=dict(before["sc_params"]))
            want["settings"].update(case["over"])
            custom = [k for k, v in want["sc_params"].items() if callable(v)]
            for k in custom:
                want["sc_params"][k] = source.DEFAULT_SC_PARAMS[k]
            expect(new, want, "loaded from " + name)
            for k, v in want["settings"].items():
                check(type(getattr(new, k)) in (type(v), bool, int, float) or np.isscalar(getattr(new, k)), "type of " + k, got=type(getattr(new, k)))
            check(isinstance(new.sc_params, source.SensitivityCurveParams), "type of sc_params")
        check(digest(os.path.join(d, final(case["name"]))) == mark, "loading changed the file")
        n = s.n_sources
        if custom:
            rec.label("custom")
            if s.sc_params["instrument"] == "custom":
                check(any(lv == "WARNING" for lv, _ in io.messages) or "WARNING" in io.out, "no warning about a custom instrument whose function was not saved")
                new.sc_params["custom_psd"] = s.sc_params["custom_psd"]
            if callable(s.sc_params["confusion_noise"]):
                new.sc_params["confusion_noise"] = s.sc_params["confusion_noise"]
        if n == 0:
            return
        new.n_proc = s.n_proc = 1
        new.interpolate_sc = s.interpolate_sc
        new.set_sc()
        close(new.get_snr_stationary(), s.get_snr_stationary(), 1e-12, what="stationary SNR after loading")
        same(np.asarray(new.max_snr_harmonic), np.asarray(s.max_snr_harmonic), "loudest harmonic after loading")
        close(new.get_h_c_n([1, 2, 3]), s.get_h_c_n([1, 2, 3]), 1e-12, what="characteristic strain after loading")
        same(np.asarray(new.harmonics_required(np.linspace(0, 0.95, 50))), np.asarray(s.harmonics_required(np.linspace(0, 0.95, 50))), "harmonics_required")
        if not s.merged.all():
            a, b = s.evolve_sources(0.1 * u.yr, create_new_class=True), new.evolve_sources(0.1 * u.yr, create_new_class=True)
            close(b.f_orb.to(u.Hz).value, a.f_orb.to(u.Hz).value, 1e-9, what="frequency after evolving what was loaded")
            same(np.asarray(b.merged), np.asarray(a.merged), "merged after evolving what was loaded")


DATA = st.lists(st.sampled_from(["weights", "snr", "merger", "sky", "parameters"]), max_size=4, unique=True)


def dress(s, what):
    """a collection with some of the optional data"""
    if "parameters" in what:
        s.sc_params.update({"L": 2e9 * u.m, "t_obs": 3 * u.yr})
    if "snr" in what:
        s.get_snr_stationary()
        s.snr = s.get_snr(n_step=2)
    if "merger" in what:
        s.get_merger_time()
    return s


@facet(P, "files", st.fixed_dictionaries({"rows": coll.collection(max_size=3), "rows2": coll.collection(max_size=3), "set": coll.SETTINGS,
                                          "name": CASE["name"], "name2": CASE["name"], "overwrite": st.sampled_from([None, False, True, True]), "full": DATA, "full2": DATA}), 120, 2000,
       "a second save to the same or another path: refused and file untouched unless overwrite; missing files reported; "
       "non-trivial: both names lead to the same file", data=("harmonics",), shards=2, thorough_shards=4)
def files(case, rec):
    with quiet(), scratch() as d:
        one, two = (dress(coll.make([dict(r, e=0.0) for r in rws] if "sky" in full else rws, dict(case["set"], tol=tol, weights="weights" in full), with_sky="sky" in full), full)
                    for rws, tol, full in ((case["rows"], case["set"]["tol"], case["full"]), (case["rows2"], 0.03, case["full2"])))
        p1, p2 = os.path.join(d, case["name"]), os.path.join(d, case["name2"])
        raises(FileNotFoundError, lambda: source.Source.from_file(p1), "loading a missing file")
        check(os.listdir(d) == [], "loading a missing file created something", got=os.listdir(d))
        one.save(p1)
        f1, f2 = final(case["name"]), final(case["name2"])
        mark = digest(os.path.join(d, f1))
        kw = {} if case["overwrite"] is None else {"overwrite": case["overwrite"]}
        rec.nontrivial(f1 == f2)
        rec.label("same file" if f1 == f2 else "other file", "overwrite" if case["overwrite"] else "keep")
        if f1 == f2 and not case["overwrite"]:
            raises(FileExistsError, lambda: two.save(p2, **kw), "saving onto an existing file")
            check(digest(os.path.join(d, f1)) == mark, "a refused save changed the file")
            back = source.Source.from_file(p1)
            expect(back, snapshot(one), "after a refused save")
            check(os.listdir(d) == [f1], "files after a refused save", got=os.listdir(d))
        else:
            two.save(p2, **kw)
            check(sorted(os.listdir(d)) == sorted({f1, f2}), "files after the second save", got=sorted(os.listdir(d)))
            expect(source.Source.from_file(p2), snapshot(two), "second file")
            if f1 != f2:
                check(digest(os.path.join(d, f1)) == mark, "another file was changed")
                expect(source.Source.from_file(p1), snapshot(one), "first file")


@facet(P, "again", st.fixed_dictionaries(dict(CASE)), 60, 1000,
       "load, save, load: a fixed point; derived and changed collections saved after loading; non-trivial: results present",
       data=("harmonics",))
def again(case, rec):
    with quiet(), scratch() as d:
        s = build(case)
        rec.nontrivial(s.snr is not None or s.t_merge is not None)
        p = [os.path.join(d, x + ".h5") for x in "abc"]
        s.save(p[0])
        a = source.Source.from_file(p[0])
        a.save(p[1])
        b = source.Source.from_file(p[1])
        expect(b, snapshot(a), "second generation")
        check(type(b) is type(a), "class of the second generation")
        if b.n_sources:
            b.gw_lum_tol = 0.02
            b.stat_tol = 0.5
            part = b[: max(1, b.n_sources - 1)]
            part.save(p[2])
            expect(source.Source.from_file(p[2]), snapshot(part), "changed and indexed collection")
            expect(source.Source.from_file(p[1]), snapshot(a), "file of the collection before the change")


@facet(P, "verification", st.fixed_dictionaries({"snr": st.booleans()}), 2, 4, "the built-in binaries saved and loaded as ordinary sources; all non-trivial",
       data=("harmonics",))
def verification(case, rec):
    rec.nontrivial()
    with quiet(), scratch() as d:
        v = source.VerificationBinaries()
        if case["snr"]:
            v.get_snr()
        v.save(os.path.join(d, "vb"))
        s = source.Source.from_file(os.path.join(d, "vb"))
        check(type(s) is source.Source, "class", got=type(s))
        expect(s, snapshot(v), "verification binaries")
        close(s.get_snr(), v.get_snr(), 1e-12, what="SNR")


@facet(P, "shortcuts", st.fixed_dictionaries({"rows": coll.collection(max_size=3, min_size=1), "set": coll.SETTINGS, "g": st.sampled_from([True, True, False]), "over_g": st.sampled_from([None, None, True, False]),
                                              "over_sc": st.sampled_from([None, True, False]), "how": st.sampled_from(["as is", "switched", "copy", "index", "evolved"])}), 10, 60,
       "collections that use the tabulated harmonics or not (from the start, switched later, copied, indexed, evolved), saved and loaded with or without overriding that: the shortcuts in use "
       "are the saved or the requested ones and give the saved results; non-trivial: the table is saved or asked for", data=("harmonics", "peters_g"), shards=2, thorough_shards=4)
def shortcuts(case, rec):
    with quiet(), scratch() as d:
        early = case["g"] if case["how"] != "switched" else not case["g"]
        s = coll.make(case["rows"], case["set"], interpolate_g=early)
        if case["how"] == "switched":
            s.set_g(case["g"])
        elif case["how"] == "copy":
            s = s.copy()
        elif case["how"] == "index":
            s = s[::-1]
        elif case["how"] == "evolved":
            s = s.evolve_sources(0.1 * u.yr, create_new_class=True)
        check(bool(s.interpolate_g) == case["g"] and (s.g is not None) == case["g"], "interpolate_g of the collection", got=s.interpolate_g, want=case["g"])
        path = os.path.join(d, "out.h5")
        s.save(path)
        kw = {k: v for k, v in (("interpolate_g", case["over_g"]), ("interpolate_sc", case["over_sc"])) if v is not None}
        new = source.Source.from_file(path, **kw)
        g = case["g"] if case["over_g"] is None else case["over_g"]
        sc = s.interpolate_sc if case["over_sc"] is None else case["over_sc"]
        rec.nontrivial(case["g"] or g)
        rec.label("saved {}, asked for {}".format(case["g"], case["over_g"]), case["how"])
        check(bool(new.interpolate_g) == g and (new.g is not None) == g, "interpolate_g after loading", got=new.interpolate_g, want=g)
        check(bool(new.interpolate_sc) == sc and (new.sc is not None) == sc, "interpolate_sc after loading", got=new.interpolate_sc, want=sc)
        n = [1, 2, 3, 5]
        a, b = s.get_h_c_n(n), new.get_h_c_n(n)
        if g == case["g"]:
            close(b, a, 1e-12, what="characteristic strain after loading")
        else:
            close(b, a, 2e-2, 2e-2 * a.max(initial=0.), "characteristic strain with and without the table")
        new.g = s.g
        new.interpolate_sc = s.interpolate_sc
        new.set_sc()
        close(new.get_snr_stationary(), s.get_snr_stationary(), 1e-12, what="stationary SNR after loading")
