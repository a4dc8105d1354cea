"""C26 per-collection quantities"""
import os

import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check, overlay_dir
from ..gen import close, col, ecc, logf, q, quiet, raises, same, unit, units, val
from .c17 import KLASS, expect, snapshot
from legwork import evol, source

P = "C26"
HARM = st.one_of(st.tuples(st.just("int"), st.lists(st.integers(1, 60), min_size=1, max_size=1)), st.tuples(st.just("npint"), st.lists(st.integers(1, 60), min_size=1, max_size=1)),
                 st.tuples(st.just("list"), st.lists(st.integers(1, 60), min_size=1, max_size=5)), st.tuples(st.just("array"), st.lists(st.integers(1, 60), min_size=1, max_size=5)),
                 st.tuples(st.just("array"), st.integers(1, 12).map(lambda k: list(range(1, k + 1)))))
MASK = st.one_of(st.none(), st.lists(st.booleans(), min_size=6, max_size=6), st.just([False] * 6))


def harmonics(h):
    kind, v = h
    return {"int": v[0], "npint": np.int64(v[0]), "list": list(v), "array": np.array(v)}[kind], np.array(v)


def build(case):
    rws = [dict(r, e=0.0) for r in case["rows"]] if case["sky"] else case["rows"]
    s = coll.make(rws, case["set"], KLASS[case.get("klass", "Source")], case["sky"])
    if any(case["gone"][:len(rws)]):
        # merge some of them, leave the others where they are
        t = s.get_merger_time(save_in_class=False)
        s.evolve_sources(np.where(case["gone"][:len(rws)], 1.5 * t.value, 0.0) * t.unit)
        s.t_merge = None
    return rws, s


def member_values(rws, s):
    m1, m2 = col(rws, "m1") * ref.MSUN, col(rws, "m2") * ref.MSUN
    return m1, m2, s.f_orb.to(u.Hz).value, np.asarray(s.ecc, dtype=float), col(rws, "d") * ref.KPC


@facet(P, "values", st.fixed_dictionaries({"rows": coll.collection(max_size=6), "set": coll.SETTINGS, "sky": st.booleans(), "klass": st.sampled_from(sorted(KLASS)),
                                           "gone": st.lists(st.sampled_from([False, False, True]), min_size=6, max_size=6), "harm": HARM, "mask": MASK, "unit": unit("time")}), 360, 8000,
       "strain, characteristic strain, chirp mass, separation and merger time of a collection (mixed, partly merged, subset requested) against the reference formulas "
       "member by member; non-trivial: >= 1 inspiralling member requested", data=("harmonics",), shards=4, thorough_shards=8)
def values(case, rec):
    with quiet():
        rws, s = build(case)
        n = s.n_sources
        gone = np.array(case["gone"][:n])
        same(np.asarray(s.merged), gone, "merged members")
        before = snapshot(s)
        m1, m2, f, e, d = member_values(rws, s)
        if case["set"]["use_a"]:
            close(f[~gone], coll.arrays(rws, float(s.ecc_tol))[2][~gone], 1e-9, what="frequency of a given separation")
        mc = ref.chirp_mass(m1, m2)
        close(val(s.m_c, "kg"), mc, 1e-12, what="chirp mass")
        close(val(s.a, "m"), ref.sma(f, m1, m2), 1e-12, what="separation")
        given, nn = harmonics(case["harm"])
        mask = None if case["mask"] is None else np.array(case["mask"][:n])
        pick = np.ones(n, bool) if mask is None else mask
        rec.label(case["harm"][0], *(["mask"] if mask is not None else []), *(["merged"] if gone.any() else []), *(["sky"] if case["sky"] else []))
        rec.nontrivial(bool((pick & ~gone).any()))
        mod = np.ones(n)
        if case["sky"]:
            mod = ref.amp_mod(np.pi / 2 - col(rws, "th"), col(rws, "ph"), col(rws, "psi"), col(rws, "inc"))
        h0 = np.where(gone[:, None], 0.0, ref.h0(mc, f, e, nn, d) * np.sqrt(mod)[:, None])
        hc = np.where(gone[:, None], 0.0, np.sqrt(ref.hc2(mc, f, e, nn, d) * mod[:, None]))
        kw = {} if mask is None else {"which_sources": mask.copy()}
        tiny = np.where(gone, 0.0, ref.h0(mc, f, 0 * e, [2], d)[:, 0])[pick][:, None]
        close(s.get_h_0_n(given, **kw), h0[pick], 1e-7, 1e-12 * tiny, "h_0_n")
        tiny = np.where(gone, 0.0, np.sqrt(ref.hc2(mc, f, 0 * e, [2], d)[:, 0]))[pick][:, None]
        close(s.get_h_c_n(given, **kw), hc[pick], 1e-7, 1e-12 * tiny, "h_c_n")
        if mask is not None:
            same(kw["which_sources"], mask, "the mask")
        if case["harm"][0] in ("list", "array"):
            same(np.asarray(given), nn, "the harmonics")
        # merger times
        a, b = ref.sma(f, m1, m2), ref.beta(m1, m2)
        tm = np.array([0.0 if g else ref.t_merge_branch(*x) for g, x in zip(gone, zip(a, e, b))])
        got = val(s.get_merger_time(save_in_class=False, **kw), "s", "merger time")
        close(got, tm[pick], 2e-6, what="merger time")
        fit = val(s.get_merger_time(save_in_class=False, exact=False, **kw), "s", "merger time")
        close(fit, tm[pick], 0.03, what="merger time from the fit")
        fits = np.zeros(n)
        if not gone.all():
            fits[~gone] = val(evol.get_t_merge_ecc(ecc_i=e[~gone], a_i=a[~gone] * u.m, beta=b[~gone] * u.m**4 / u.s, exact=False), "s")
        close(fit, fits[pick], 1e-6, what="merger time from the fit against get_t_merge_ecc")
        check(s.t_merge is None, "merger times were saved without being asked for")
        expect(s, before, "after computing")
        got = val(s.get_merger_time(save_in_class=True, **kw), "s", "merger time")
        close(got, tm, 2e-6, what="saved merger time (of every member)")
        same(s.t_merge.to(u.s).value, got, "saved merger times")
        before["t_merge"] = s.t_merge.copy()
        expect(s, before, "after saving merger times")
        close(val(s.get_merger_time(exact=False), "s", "merger time"), fits, 1e-6, what="saved merger times from the fit")
        close(val(s.t_merge, "s"), fits, 1e-6, what="saved merger times from the fit")


@facet(P, "setter", st.fixed_dictionaries({"rows": coll.collection(max_size=5), "set": coll.SETTINGS, "factor": st.lists(logf(0.2, 50.), min_size=5, max_size=5), "unit": unit("len"),
                                           "bad": st.booleans(), "scalar": st.booleans()}), 150, 4000,
       "assigning separations: frequencies, strains and merger times follow as for a collection built with them; non-trivial: > 1 member", data=("harmonics",), shards=2, thorough_shards=4)
def setter(case, rec):
    with quiet():
        rws = case["rows"]
        s = coll.make(rws, case["set"])
        n = s.n_sources
        rec.nontrivial(n > 1)
        if case["bad"]:
            before = snapshot(s)
            raises(AssertionError, lambda: setattr(s, "a", np.ones(n)), "separation without units")
            expect(s, before, "after a rejected separation")
        m1, m2, f, e, d = member_values(rws, s)
        new = val(s.a, "m") * np.array(case["factor"][:n])
        if case["scalar"]:
            new[:] = new.max()
            s.a = q(float(new[0]), "m", case["unit"])
        else:
            given = q(new, "m", case["unit"])
            keep = given.copy()
            s.a = given
            same(given, keep, "the separations given")
        close(val(s.f_orb, "Hz"), ref.forb(new, m1, m2), 1e-12, what="frequency")
        check(np.shape(s.f_orb) == (n,), "shape of the frequency", got=np.shape(s.f_orb))
        close(val(s.a, "m"), new, 1e-12, what="separation")
        kw = coll.kwargs(rws, case["set"])
        kw.pop("f_orb", None)
        other = source.Source(**dict(kw, a=new * u.m))
        close(s.get_h_0_n([1, 2, 3]), other.get_h_0_n([1, 2, 3]), 1e-9, what="strain")
        close(val(s.get_merger_time(), "s"), val(other.get_merger_time(), "s"), 1e-7, what="merger time")
        same(np.asarray(s.get_source_mask(stationary=True)), np.asarray(s[:].get_source_mask(stationary=True)), "mask")


EDIT = st.one_of(
    st.tuples(st.just("edit"), st.sampled_from(["f_orb", "m_1", "m_2", "ecc", "dist", "a", "merged"]), st.lists(st.floats(0.3, 2.5), min_size=5, max_size=5), st.booleans()),
    st.tuples(st.just("use"), st.integers(0, 1), st.just([]), st.booleans()))
OBSERVED = st.sampled_from(["merger", "merger", "fit", "merger_only", "h_0", "h_c", "snr", "masks", "simple"])


def observe(s, what, flag):
    if what == "merger":
        return [s.get_merger_time(), s.t_merge]
    if what == "fit":
        return [s.get_merger_time(exact=False), s.t_merge]
    if what == "merger_only":
        return [s.get_merger_time(save_in_class=False, exact=flag)]
    if what == "h_0":
        return [s.get_h_0_n([1, 2, 5])]
    if what == "h_c":
        return [s.get_h_c_n([1, 2, 5])]
    if what == "snr":
        return [s.get_snr(t_obs=(2 if flag else 4) * u.yr, n_step=4), s.snr]
    if what == "masks":
        return [s.get_source_mask(circular=True), s.get_source_mask(stationary=True), s.get_source_mask(circular=False, stationary=flag, t_obs=3 * u.yr)]
    return [s.m_c, s.a, np.array([s.n_sources, len(s)])]


@facet(P, "current", st.fixed_dictionaries({"rows": coll.collection(max_size=5), "set": coll.SETTINGS, "ops": st.lists(EDIT, min_size=3, max_size=9),
                                            "use": st.lists(OBSERVED, min_size=2, max_size=2), "end": st.booleans()}), 160, 4000,
       "histories of edits of the properties of a collection (assigned or in place) between computations: every result is that of a collection built with the current properties; "
       "non-trivial: something is computed again after an edit", data=("harmonics",), shards=4, thorough_shards=8)
def current(case, rec):
    with quiet():
        s = coll.make(case["rows"], dict(case["set"], weights=False))
        n = s.n_sources
        seen, edited = set(), False
        ops = case["ops"] + [("use", 0, [], case["end"]), ("use", 1, [], case["end"])]
        for step, (kind, name, factor, flag) in enumerate([("use", 0, [], False)] + ops):
            name = case["use"][name] if kind == "use" else name
            if kind == "edit":
                k = np.array(factor[:n])
                edited = True
                if name == "merged":
                    new = k < 1
                elif name == "ecc":
                    new = np.clip(np.asarray(s.ecc) * k, 0, 0.94) if not flag else np.clip(k / 3, 0, 0.9)
                else:
                    new = getattr(s, name) * k
                if flag and name != "a":
                    getattr(s, name)[...] = new
                else:
                    setattr(s, name, new)
            else:
                rec.nontrivial(edited and name in seen)
                seen.add(name)
                got = [x.copy() for x in observe(s, name, flag)]
                fresh = source.Source(m_1=s.m_1.copy(), m_2=s.m_2.copy(), ecc=np.array(s.ecc), dist=s.dist.copy(), f_orb=s.f_orb.copy(), interpolate_g=False,
                                      interpolate_sc=s.interpolate_sc, gw_lum_tol=s.gw_lum_tol, stat_tol=s.stat_tol)
                fresh.merged = s.merged.copy()
                for x, y in zip(got, observe(fresh, name, flag)):
                    close(val(x, str(y.unit)) if isinstance(y, u.Quantity) else x, y.value if isinstance(y, u.Quantity) else y, 1e-9,
                          what="step {}: {} of an edited collection".format(step, name))


FRAME = st.sampled_from(["barycentrictrueecliptic", "galactic", "icrs", "fk5", "barycentricmeanecliptic"])
N = st.sampled_from([1, 2, 3, 40, 2000])


@facet(P, "sky", st.fixed_dictionaries({"n": N, "lon": st.floats(0, 360), "lat": st.floats(-89, 89), "frame": FRAME, "with_dist": st.booleans(), "give": st.sampled_from(["none", "inc", "pol", "both"]),
                                        "scalar": st.booleans(), "seed": st.integers(0, 2**31), "d": logf(1e-2, 1e4), "angle": st.floats(0, np.pi), "unit": unit("ang"), "dunit": unit("dist")}),
       200, 4000, "sky positions in any frame, and the inclinations and polarisations drawn when they are not given: their number, range, distribution and that given ones are kept; "
       "non-trivial: something is drawn", data=("harmonics",), shards=2, thorough_shards=4)
def sky(case, rec):
    n = case["n"]
    one = case["scalar"] and n == 1
    rng = np.random.default_rng(case["seed"])
    lon, lat = (case["lon"] + rng.uniform(0, 360, n)) % 360, np.clip(case["lat"] + rng.uniform(-30, 30, n), -89, 89)
    d = case["d"] * rng.uniform(1, 2, n)
    w = (lambda x: x[0]) if one else (lambda x: x)
    dist = q(w(d) if not one else float(d[0]), "kpc", case["dunit"])
    kw = dict(frame=case["frame"])
    if case["with_dist"]:
        kw["distance"] = dist
    pos = SkyCoord(w(lon) * u.deg, w(lat) * u.deg, **kw)
    want = pos.transform_to("barycentrictrueecliptic")
    want = np.atleast_1d(want.lon.to(u.rad).value), np.atleast_1d(want.lat.to(u.rad).value)
    src = dict(m_1=w(np.full(n, 10.)) * u.Msun, m_2=w(np.full(n, 9.)) * u.Msun, ecc=w(np.zeros(n)), dist=dist, f_orb=w(np.full(n, 1e-3)) * u.Hz, interpolate_g=False,
               interpolate_sc=False, position=pos)
    angles = (case["angle"] + np.linspace(0, 1, n)) % np.pi
    if case["give"] in ("inc", "both"):
        src["inclination"] = q(w(angles) if not one else float(angles[0]), "rad", case["unit"])
    if case["give"] in ("pol", "both"):
        src["polarisation"] = q(w(angles[::-1]) if not one else float(angles[-1]), "rad", case["unit"])
    rec.label(case["frame"], case["give"], "scalar" if one else "array")
    rec.nontrivial(case["give"] != "both")
    np.random.seed(case["seed"] % 2**32)
    with quiet():
        s = source.Source(**src)
    check(s.n_sources == n and len(s.position) == n, "number of sources", got=(s.n_sources,))
    close(np.cos(s.position.lat.rad) * np.cos(s.position.lon.rad), np.cos(want[1]) * np.cos(want[0]), 1e-9, 1e-9, "position")
    close(np.cos(s.position.lat.rad) * np.sin(s.position.lon.rad), np.cos(want[1]) * np.sin(want[0]), 1e-9, 1e-9, "position")
    close(np.sin(s.position.lat.rad), np.sin(want[1]), 1e-9, 1e-9, "position")
    close(s.position.distance.to(u.kpc).value, s.dist.to(u.kpc).value, 1e-12, what="distance of the position")
    close(val(s.dist, "kpc"), d, 1e-12, what="distance")
    inc, pol = val(s.inclination, "rad", "inclination"), val(s.polarisation, "rad", "polarisation")
    check(inc.shape == pol.shape == (n,), "number of inclinations and polarisations", got=(inc.shape, pol.shape))
    if "inclination" in src:
        close(inc, angles, 1e-12, 1e-15, "given inclination")
    else:
        check(np.all((inc >= 0) & (inc <= np.pi / 2)), "drawn inclination outside 0 to pi/2", inc=inc)
        uniform(np.cos(inc), 1.0, "cosine of the drawn inclinations")
    if "polarisation" in src:
        close(pol, angles[::-1], 1e-12, 1e-15, "given polarisation")
    else:
        check(np.all((pol >= 0) & (pol <= np.pi)), "drawn polarisation outside 0 to pi", pol=pol)
        uniform(pol, np.pi, "drawn polarisations")
    if "inclination" not in src and "polarisation" not in src and n >= 2000:
        r = np.corrcoef(np.cos(inc), pol)[0, 1]
        check(abs(r) < 6 / np.sqrt(n), "drawn inclinations and polarisations are correlated", r=r)
    mod = ref.amp_mod(want[1], want[0], pol, inc)
    h = s.get_h_0_n(2)
    mc = ref.chirp_mass(10. * ref.MSUN, 9. * ref.MSUN) * np.ones(n)
    close(h, ref.h0(mc, np.full(n, 1e-3), np.zeros(n), [2], d * ref.KPC) * np.sqrt(mod)[:, None], 1e-7, what="strain")


def uniform(x, hi, what):
    """Kolmogorov-Smirnov distance to the uniform distribution, false alarms have probability < 1e-15"""
    n = len(x)
    if n < 2000:
        return
    y = np.sort(x) / hi
    k = np.arange(n)
    dist = max(np.max(y - k / n), np.max((k + 1) / n - y))
    check(dist * np.sqrt(n) < 4.2, what + " are not uniform", distance=dist)


VB_OP = st.one_of(st.tuples(st.just("snr"), st.sampled_from([None, 0.5, 4., 10.])), st.tuples(st.just("evolve"), st.sampled_from([1., 1e4, 1e6])), st.tuples(st.just("merger"), st.booleans()),
                  st.tuples(st.just("copy"), st.none()), st.tuples(st.just("index"), st.sampled_from([0, -1, [0, 1], None])), st.tuples(st.just("new"), st.sampled_from([1., 1e6])),
                  st.tuples(st.just("sc"), st.sampled_from(["TianQin", "LISA"])), st.tuples(st.just("tol"), st.sampled_from([0.01, 0.1])), st.tuples(st.just("mask"), st.none()))


@facet(P, "verification", st.fixed_dictionaries({"seed": st.integers(0, 1000), "ops": st.lists(VB_OP, max_size=5), "spoil": st.booleans()}), 60, 1500,
       "the built-in verification binaries, after random operations, against an ordinary collection of the tabulated systems with the same operations; non-trivial: >= 1 operation",
       data=("harmonics",), shards=3, thorough_shards=6)
def verification(case, rec):
    tab = np.load(os.path.join(overlay_dir(), "legwork", "verification_binaries.npy"), allow_pickle=True).item()
    with quiet():
        if case["spoil"]:
            # an earlier set of binaries whose owner edits it in place
            other = source.VerificationBinaries()
            for x in (other.m_1, other.m_2, other.dist, other.f_orb, other.inclination, other.true_snr):
                x *= 1.5
            other.labels[0] = "edited"
            rec.label("spoil")
        np.random.seed(case["seed"])
        v = source.VerificationBinaries()
        n = len(tab["label"])
        check(len(v) == n and isinstance(v, source.Source), "number of binaries", got=len(v))
        check(list(v.labels) == list(tab["label"]), "labels", got=v.labels)
        same(np.asarray(v.true_snr), np.asarray(tab["snr"]), "tabulated SNRs")
        close(val(v.m_1, "Msun"), tab["m_1"].to(u.Msun).value, 1e-12, what="m_1")
        close(val(v.m_2, "Msun"), tab["m_2"].to(u.Msun).value, 1e-12, what="m_2")
        close(val(v.dist, "kpc"), tab["dist"].to(u.kpc).value, 1e-12, what="dist")
        close(val(v.f_orb, "Hz"), tab["f_GW"].to(u.Hz).value / 2, 1e-12, what="orbital frequency")
        close(val(v.inclination, "rad"), tab["i"].to(u.rad).value, 1e-12, what="inclination")
        check(np.all(np.asarray(v.ecc) == 0), "circular")
        same(np.asarray(v.max_snr_harmonic), np.full(n, 2), "loudest harmonic")
        pol = val(v.polarisation, "rad")
        check(pol.shape == (n,) and np.all((pol >= 0) & (pol <= np.pi)), "drawn polarisations", pol=pol)
        sep = SkyCoord(l=tab["l_gal"], b=tab["b_gal"], frame="galactic").transform_to("barycentrictrueecliptic")
        close(np.cos(v.position.lon.rad - sep.lon.rad), np.ones(n), 1e-12, what="ecliptic longitude")
        close(v.position.lat.rad, sep.lat.rad, 1e-9, what="ecliptic latitude")
        o = source.Source(m_1=tab["m_1"], m_2=tab["m_2"], dist=tab["dist"], f_orb=tab["f_GW"] / 2, ecc=np.zeros(n), inclination=tab["i"], polarisation=v.polarisation,
                          position=SkyCoord(l=tab["l_gal"], b=tab["b_gal"], frame="galactic"), interpolate_g=False)
        rec.nontrivial(bool(case["ops"]))
        for name, arg in case["ops"]:
            rec.label(name)
            if name == "snr":
                kw = {} if arg is None else {"t_obs": arg * u.yr}
                close(v.get_snr(**kw), o.get_snr(**kw), 1e-9, what="SNR")
            elif name == "evolve":
                v.evolve_sources(arg * u.yr)
                o.evolve_sources(arg * u.yr)
            elif name == "merger":
                close(val(v.get_merger_time(exact=arg), "s"), val(o.get_merger_time(exact=arg), "s"), 1e-9, what="merger time")
            elif name == "copy":
                c = v.copy()
                check(type(c) is type(v) and list(c.labels) == list(v.labels) and c is not v, "copy", got=c)
                same(c.true_snr, v.true_snr, "tabulated SNRs of a copy")
                expect(c, snapshot(v), "copy of the verification binaries")
                v = c
            elif name == "index":
                raises(NotImplementedError, lambda: v[arg if arg is not None else slice(None)], "indexing the verification binaries")
            elif name == "new":
                a, b = v.evolve_sources(arg * u.yr, create_new_class=True), o.evolve_sources(arg * u.yr, create_new_class=True)
                check(a is not v and len(a) == n, "evolved into a new collection")
                for k in ("m_1", "m_2", "dist", "f_orb", "inclination", "polarisation", "t_merge"):
                    close(getattr(a, k).si.value, getattr(b, k).si.value, 1e-9, what="evolved into a new collection: " + k)
                same(np.asarray(a.merged), np.asarray(b.merged), "evolved into a new collection: merged")
                close(a.get_snr(), b.get_snr(), 1e-9, what="SNR of the new collection")
            elif name == "sc":
                v.sc_params["instrument"] = o.sc_params["instrument"] = arg
            elif name == "tol":
                v.gw_lum_tol = o.gw_lum_tol = arg
            elif name == "mask":
                for k in (True, False):
                    same(np.asarray(v.get_source_mask(stationary=k)), np.asarray(o.get_source_mask(stationary=k)), "mask")
        want = snapshot(o)
        if v.snr is None or o.max_snr_harmonic is None:
            want["max_snr_harmonic"] = snapshot(v)["max_snr_harmonic"]
        got = snapshot(v)
        for k in ("m_1", "m_2", "dist", "f_orb", "ecc"):
            close(getattr(got[k], "value", got[k]), want[k].to(got[k].unit).value if hasattr(got[k], "unit") else want[k], 1e-9, what=k + " after the operations")
        same(got["merged"], want["merged"], "merged after the operations")
        close(v.get_h_0_n([1, 2]), o.get_h_0_n([1, 2]), 1e-9, what="strain after the operations")
        close(v.get_h_c_n(2), o.get_h_c_n(2), 1e-9, what="characteristic strain after the operations")
