"""C21 invalid input is rejected, valid input accepted"""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
from hypothesis import strategies as st

from .. import ref
from ..core import facet, check, Violation
from ..gen import close, col, ecc, logf, mass, q, quiet, raises, same, structured, unit, units, val
from .c17 import expect, snapshot
from legwork import evol, psd, snr, source, strain, utils, visualisation

P = "C21"
ROW = st.fixed_dictionaries({"m1": mass, "m2": mass, "e": ecc(0.9), "d": logf(0.01, 1e4), "f": logf(1e-6, 1e-2), "w": st.floats(0.1, 9), "th": st.floats(0.1, 3.0), "ph": st.floats(0, 6.2),
                             "psi": st.floats(0, 3.1), "inc": st.floats(0, 3.1)})
FORM = st.sampled_from(["array", "list", "scalar"])
DEFECT = st.one_of(
    st.tuples(st.just("none"), st.none(), st.none()), st.tuples(st.just("none"), st.none(), st.none()),
    st.tuples(st.just("no_freq"), st.none(), st.none()),
    st.tuples(st.just("unitless"), st.sampled_from(["m_1", "m_2", "dist", "freq", "inclination", "polarisation", "m_1", "m_2", "both"]), FORM),
    st.tuples(st.just("length"), st.sampled_from(["m_1", "m_2", "dist", "freq", "ecc", "weights", "position", "inclination", "polarisation"]), st.sampled_from([-1, 1, 2, "one", "zero", "scalar"])),
    st.tuples(st.just("unitless"), st.sampled_from(["m_1", "m_2", "dist", "freq", "inclination", "polarisation", "m_1", "m_2", "both"]), FORM),
    st.tuples(st.just("length"), st.sampled_from(["m_1", "m_2", "dist", "freq", "ecc", "weights", "position", "inclination", "polarisation"]), st.sampled_from([-1, 1, 2, "one", "zero", "scalar"])),
    st.tuples(st.just("no_position"), st.sampled_from(["inclination", "polarisation", "both"]), st.none()),
    st.tuples(st.just("eccentric"), st.integers(0, 5), st.one_of(st.sampled_from([1e-12, 1e-3, 0.01, 0.04, 0.9]), ecc(0.9, circ=False))),
    st.tuples(st.just("instrument"), st.sampled_from(["lisa", "LIGO", "", "Custom", "tianqin", 3]), st.sampled_from(["init", "item", "update", "snr", "assign", "stationary", "evolving"])),
    st.tuples(st.just("confusion"), st.sampled_from(["robson", "Robson19", "", "huang", "none"]), st.sampled_from(["init", "item", "update", "snr", "assign", "stationary", "evolving"])),
    st.tuples(st.just("key"), st.sampled_from(["tobs", "t_evol", "", "psd", "instruments", "n_proc"]), st.sampled_from(["init", "item", "update", "ior", "setdefault", "assign"])),
    st.tuples(st.just("mask"), st.sampled_from(["yes", 2, -1, 0.5, "True", "circular", "all"]), st.sampled_from(["circular", "stationary", "both"])),
    st.tuples(st.just("harmonic"), st.sampled_from([0, -1, -5]), st.tuples(st.integers(0, 4), st.sampled_from(["list", "array", "scalar"]), st.sampled_from(["h_0_n", "h_c_n"]))),
    st.tuples(st.just("variable"), st.sampled_from(["x", "mc", "M_1", "", "eccentricity", "weights"]), st.sampled_from(["x", "y", "xy"])),
    st.tuples(st.just("snr_missing"), st.none(), st.sampled_from(["x", "y"])),
    st.tuples(st.just("ecc_tol"), st.floats(0, 1), st.none()))


def base(case, n):
    r = case["rows"]
    un = case["units"]
    kw = dict(m_1=q(col(r, "m1"), "Msun", un["mass"]), m_2=q(col(r, "m2"), "Msun", un["mass"]), dist=q(col(r, "d"), "kpc", un["dist"]), ecc=col(r, "e"), interpolate_g=False,
              interpolate_sc=case["sc"])
    if case["sky"]:
        kw["ecc"] = np.zeros(n)
        kw["position"] = SkyCoord(lon=col(r, "ph") * u.rad, lat=(np.pi / 2 - col(r, "th")) * u.rad, frame="barycentrictrueecliptic")
        if case["angles"]:
            kw.update(inclination=col(r, "inc") * u.rad, polarisation=(col(r, "psi") * u.rad).to(u.deg))
    f = col(r, "f")
    if case["use_a"]:
        kw["a"] = q(ref.sma(f, col(r, "m1") * ref.MSUN, col(r, "m2") * ref.MSUN), "m", un["len"])
    else:
        kw["f_orb"] = q(f, "Hz", un["freq"])
    if case["weights"]:
        kw["weights"] = col(r, "w")
    return kw


def as_form(v, form):
    return v if form == "array" else (v.tolist() if form == "list" else float(v[0]))


def resize(v, k):
    n = len(v)
    if k == "scalar":
        return v[0]
    m = {"one": 1, "zero": 0}.get(k, None)
    m = n + k if m is None else m
    return v[np.arange(max(m, 0)) % n]


def snr_kw(s, how):
    return {"snr": s.get_snr, "stationary": s.get_snr_stationary, "evolving": lambda **k: s.get_snr_evolving(n_step=3, **k)}[how]


@facet(P, "source", st.fixed_dictionaries({"rows": structured(st.lists(ROW, min_size=1, max_size=5)), "units": units("mass", "freq", "dist", "len"), "sky": st.booleans(), "angles": st.booleans(),
                                           "use_a": st.booleans(), "weights": st.booleans(), "sc": st.sampled_from([False, False, True]), "form": st.sampled_from(["array", "list", "scalar"]),
                                           "defect": DEFECT}), 900, 20000,
       "constructor arguments, sensitivity parameters, masks, harmonics and plot variables of collections, valid or with one defect at a random place; "
       "non-trivial: every case with a defect, and valid scalars or lists", data=("harmonics",), shards=4, thorough_shards=8)
def src(case, rec):
    n = len(case["rows"])
    name, where, how = case["defect"]
    if name in ("unitless", "length"):
        # arguments that are only sometimes given have to be given for a defect in them
        if where in ("inclination", "polarisation", "position"):
            case = dict(case, sky=True, angles=True)
        elif where == "weights":
            case = dict(case, weights=True)
    kw = base(case, n)
    freq = "a" if case["use_a"] else "f_orb"
    rec.label(name)
    rec.nontrivial(name != "none" or case["form"] != "array")
    with quiet():
        if name == "none":
            form = case["form"]
            if form == "list":
                kw["ecc"] = kw["ecc"].tolist()
                if "weights" in kw:
                    kw["weights"] = kw["weights"].tolist()
            elif form == "scalar":
                kw = {k: (v[0] if isinstance(v, (u.Quantity, np.ndarray, SkyCoord)) else v) for k, v in kw.items()}
                kw["ecc"] = float(kw["ecc"])
                n = 1
            s = source.Source(**kw)
            check(len(s) == s.n_sources == n, "number of sources", got=len(s))
            r = case["rows"][:n]
            close(val(s.m_1, "Msun"), col(r, "m1"), 1e-12, what="m_1")
            close(val(s.m_2, "Msun"), col(r, "m2"), 1e-12, what="m_2")
            close(val(s.dist, "kpc"), col(r, "d"), 1e-12, what="dist")
            close(val(s.f_orb, "Hz"), col(r, "f"), 1e-10, what="f_orb")
            same(np.asarray(s.ecc), np.zeros(n) if case["sky"] else col(r, "e"), "ecc")
            if "weights" in kw:
                same(np.asarray(s.weights, dtype=float), col(r, "w"), "weights")
            else:
                check(s.weights is None, "weights")
            h = s.get_h_0_n([1, 2])
            check(h.shape == (n, 2) and np.all(np.isfinite(h)), "strain of valid sources", got=h)
            return
        if name == "no_freq":
            kw.pop(freq)
            return raises(ValueError, lambda: source.Source(**kw), "neither frequency nor separation")
        if name == "unitless":
            keys = ["m_1", "m_2"] if where == "both" else [freq if where == "freq" else where]
            for k in keys:
                kw[k] = as_form(kw[k].value, how if n == 1 or how != "scalar" else "array")
            return raises(AssertionError, lambda: source.Source(**kw), "{} without units ({})".format(keys, how))
        if name == "length":
            k = freq if where == "freq" else where
            if (n == 1 and how in ("one", "scalar")):
                how = 1
            kw[k] = resize(kw[k], how)
            return raises(ValueError, lambda: source.Source(**kw), "{} of another length ({}) than {} sources".format(k, how, n))
        if name == "no_position":
            kw.pop("position", None)
            for k in ("inclination", "polarisation"):
                kw.pop(k, None)
                if where in (k, "both"):
                    kw[k] = np.ones(n) * u.rad
            return raises(ValueError, lambda: source.Source(**kw), "{} without a sky position".format(where))
        if name == "eccentric":
            if "position" not in kw:
                kw["position"] = SkyCoord(lon=np.ones(n) * u.rad, lat=np.ones(n) * u.rad, frame="barycentrictrueecliptic")
            e = np.zeros(n)
            e[where % n] = how
            kw["ecc"] = e if case["form"] == "array" else e.tolist()
            return raises(ValueError, lambda: source.Source(**kw), "sky position with an eccentric source")
        if name in ("instrument", "confusion", "key"):
            key = {"instrument": "instrument", "confusion": "confusion_noise", "key": where}[name]
            value = where if name != "key" else 1
            exc = KeyError if name == "key" else ValueError
            if how == "init":
                kw["interpolate_sc"] = True
                return raises(exc, lambda: source.Source(sc_params={key: value}, **kw), "unknown {} {!r}".format(name, where))
            if how in ("item", "update", "assign", "ior", "setdefault"):
                kw["interpolate_sc"] = True
            s = source.Source(**kw)
            before = snapshot(s)

            def change():
                if how == "item":
                    s.sc_params[key] = value
                elif how == "update":
                    s.sc_params.update({key: value})
                elif how == "assign":
                    s.sc_params = {key: value}
                elif how == "ior":
                    s.sc_params |= {key: value}
                elif how == "setdefault":
                    s.sc_params.setdefault(key, value)
                else:
                    snr_kw(s, how)(**{key: value})
            raises(exc, change, "unknown {} {!r} by {}".format(name, where, how))
            if exc is KeyError:
                expect(s, before, "after the rejected parameter")
            return
        s = source.Source(**kw)
        before = snapshot(s)
        if name == "mask":
            m = {k: (where if how in (k, "both") else None) for k in ("circular", "stationary")}
            raises(ValueError, lambda: s.get_source_mask(**m), "mask value {!r}".format(m))
        elif name == "harmonic":
            pos, form, fn = how
            h = list(range(1, 1 + pos % 4 + 1))
            h.insert(pos % (len(h) + 1), where)
            h = where if form == "scalar" else (h if form == "list" else np.array(h))
            raises(ValueError, lambda: getattr(s, "get_" + fn)(h), "harmonics {!r} in {}".format(h, fn))
        elif name == "variable":
            a = {"x": (where, None), "y": ("m_1", where), "xy": (where, where)}[how]
            raises(ValueError, lambda: s.plot_source_variables(*a, show=False), "plotting {!r}".format(a))
        elif name == "snr_missing":
            a = {"x": ("snr", None), "y": ("m_1", "snr")}[how]
            raises(ValueError, lambda: s.plot_source_variables(*a, show=False), "plotting the SNR before it is known")
        elif name == "ecc_tol":
            raises(AttributeError, lambda: setattr(s, "ecc_tol", where), "setting the eccentric threshold")
        expect(s, before, "after the rejected " + name)


FN = st.one_of(
    st.tuples(st.just("harmonic"), st.sampled_from(["h_0_n", "h_c_n", "fn_dot"]), st.tuples(st.sampled_from([0, -1, -7]), st.integers(0, 4), st.sampled_from(["list", "array", "scalar"]))),
    st.tuples(st.just("instrument"), st.sampled_from(["psd", "snr_cs", "snr_es", "snr_ce", "snr_ee"]), st.sampled_from(["lisa", "", "LIGO", None, "Tianqin", 1])),
    st.tuples(st.just("model"), st.sampled_from(["get", "psd", "lisa", "tianqin", "decigo"]), st.sampled_from(["robson", "", "KARNESIS21", "huang2020"])),
    st.tuples(st.just("thiele"), st.sampled_from(["get", "psd", "lisa", "decigo"]), st.sampled_from([0.5, 1., 2., 3.99, 4.01, 5., 10.])),
    st.tuples(st.just("missing"), st.sampled_from(["check", "t_circ", "t_ecc", "evol_circ", "evol_ecc", "stationary"]), st.sampled_from(["masses", "m_1", "m_2", "sep", "all", "f_without_masses", "beta_f"])),
    st.tuples(st.just("y"), st.sampled_from(["asd", "h_0", "", None, "PSD"]), st.none()))


@facet(P, "functions", st.fixed_dictionaries({"rows": structured(st.lists(ROW, min_size=1, max_size=4)), "fn": FN, "scalar": st.booleans(), "out": st.sampled_from(["f_orb", "f_GW", ["a", "f_orb"], ["timesteps", "f_GW"]])}),
       500, 12000, "single-defect arguments of every module's functions (harmonics, instruments, models, mission lengths, missing masses / separations, plot quantities); "
       "non-trivial: every case", shards=2, thorough_shards=4)
def functions(case, rec):
    kind, where, arg = case["fn"]
    rec.nontrivial()
    rec.label(kind)
    r = case["rows"]
    n = len(r)
    m1, m2, f, d, e = col(r, "m1") * u.Msun, col(r, "m2") * u.Msun, col(r, "f") * u.Hz, col(r, "d") * u.kpc, col(r, "e")
    mc = ref.chirp_mass(m1.value, m2.value) * u.Msun
    fr = np.logspace(-4, -1, 5) * u.Hz
    with quiet():
        if kind == "harmonic":
            bad, pos, form = arg
            h = list(range(1, 2 + pos % 4))
            h.insert(pos % (len(h) + 1), bad)
            h = bad if form == "scalar" else (h if form == "list" else np.array(h))
            if where == "fn_dot":
                h = h if form == "scalar" else np.array(h)
                a = (mc[0], f[0], float(e[0])) if form != "scalar" else (mc, f, e)
                raises(ValueError, lambda: utils.fn_dot(m_c=a[0], f_orb=a[1], e=a[2], n=h), "fn_dot of harmonics {!r}".format(h))
            else:
                raises(ValueError, lambda: getattr(strain, where)(m_c=mc, f_orb=f, ecc=e, n=h, dist=d), "{} of harmonics {!r}".format(where, h))
        elif kind == "instrument":
            call = {"psd": lambda: psd.power_spectral_density(fr, instrument=arg),
                    "snr_cs": lambda: snr.snr_circ_stationary(m_c=mc, f_orb=f, dist=d, t_obs=4 * u.yr, instrument=arg),
                    "snr_es": lambda: snr.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=e, dist=d, t_obs=4 * u.yr, harmonics_required=3, instrument=arg),
                    "snr_ce": lambda: snr.snr_circ_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, t_obs=4 * u.yr, n_step=3, instrument=arg),
                    "snr_ee": lambda: snr.snr_ecc_evolving(m_1=m1, m_2=m2, f_orb_i=f, dist=d, ecc=np.maximum(e, 0.01), t_obs=1 * u.h, n_step=3, harmonics_required=3, instrument=arg)}[where]
            raises(ValueError, call, "{} for instrument {!r}".format(where, arg))
        elif kind == "model":
            call = {"get": lambda: psd.get_confusion_noise(fr, model=arg), "psd": lambda: psd.power_spectral_density(fr, confusion_noise=arg), "lisa": lambda: psd.lisa_psd(fr, confusion_noise=arg),
                    "tianqin": lambda: psd.tianqin_psd(fr, confusion_noise=arg),
                    "decigo": lambda: psd.power_spectral_density(np.logspace(-2, 1, 5) * u.Hz, instrument="DECIGO", confusion_noise=arg)}[where]
            raises(ValueError, call, "confusion model {!r} in {}".format(arg, where))
        elif kind == "thiele":
            t = q(arg, "yr", "d")
            call = {"get": lambda: psd.get_confusion_noise(fr, model="thiele21", t_obs=t), "psd": lambda: psd.power_spectral_density(fr, confusion_noise="thiele21", t_obs=t),
                    "lisa": lambda: psd.lisa_psd(fr, confusion_noise="thiele21", t_obs=t),
                    "decigo": lambda: psd.power_spectral_density(np.logspace(-2, 1, 5) * u.Hz, instrument="DECIGO", confusion_noise="thiele21", t_obs=t)}[where]
            raises(ValueError, call, "4 yr confusion model for {} yr in {}".format(arg, where))
        elif kind == "y":
            raises(ValueError, lambda: visualisation.plot_sensitivity_curve(y_quantity=where, show=False), "y_quantity {!r}".format(where))
            import matplotlib.pyplot as plt
            plt.close("all")
        else:
            a = q(ref.sma(f.value, m1.to(u.kg).value, m2.to(u.kg).value), "m", "AU")
            b = ref.beta(m1.to(u.kg).value, m2.to(u.kg).value) * u.m**4 / u.s
            pick = (lambda x: x[0]) if case["scalar"] else (lambda x: x)
            args = {"masses": dict(a_i=pick(a)), "m_1": dict(m_2=pick(m2), f_orb_i=pick(f)), "m_2": dict(m_1=pick(m1), f_orb_i=pick(f)), "sep": dict(m_1=pick(m1), m_2=pick(m2)), "all": {},
                    "f_without_masses": dict(beta=pick(b), a_i=pick(a)), "beta_f": dict(beta=pick(b), f_orb_i=pick(f))}[arg]
            ee = {"ecc_i": float(e[0]) if case["scalar"] else e}
            if where == "stationary":
                args = {k: v for k, v in args.items() if k in ("m_1", "m_2")}
                if len(args) == 2:
                    args.pop("m_1")
                call = lambda: evol.determine_stationarity(f_orb_i=pick(f), t_evol=4 * u.yr, ecc_i=ee["ecc_i"], **args)
            elif where in ("check", "t_circ", "t_ecc"):
                if arg == "f_without_masses":
                    args = dict(beta=pick(b))
                fn = {"check": evol.check_mass_freq_input, "t_circ": evol.get_t_merge_circ, "t_ecc": lambda **k: evol.get_t_merge_ecc(**ee, **k)}[where]
                call = lambda: fn(**args)
            elif where == "evol_circ":
                call = lambda: evol.evol_circ(t_evol=1 * u.s, n_step=2, output_vars=case["out"], **args)
            else:
                call = lambda: evol.evol_ecc(t_evol=1 * u.s, n_step=2, output_vars=case["out"], **dict({"ecc_i": np.maximum(ee["ecc_i"], 0.01)} if not case["scalar"] else {"ecc_i": 0.1}, **args))
            raises(ValueError, call, "{} with only {}".format(where, sorted(args)))


ITEM = st.one_of(st.none().map(lambda x: ["none", x]), st.floats(-1e6, 1e6).map(lambda x: ["float", x]), st.integers(-99, 99).map(lambda x: ["int", x]), st.floats(-9, 9).map(lambda x: ["np", x]),
                 st.lists(st.floats(-9, 9), max_size=4).map(lambda x: ["list", x]), st.lists(st.floats(-9, 9), max_size=4).map(lambda x: ["array", x]),
                 st.floats(-9, 9).map(lambda x: ["quantity", x]), st.lists(st.floats(-9, 9), max_size=4).map(lambda x: ["qarray", x]), st.text("abc", max_size=3).map(lambda x: ["str", x]),
                 st.lists(st.lists(st.floats(-9, 9), min_size=2, max_size=2), min_size=1, max_size=3).map(lambda x: ["array2", x]), st.booleans().map(lambda x: ["bool", x]))


@facet(P, "ensure_array", st.lists(ITEM, max_size=6), 400, 10000,
       "any mix of arguments of the array conversion helper against its documented rules; non-trivial: >= 2 kinds")
def ensure(case, rec):
    rec.nontrivial(len({k for k, _ in case}) > 1)
    make = {"none": lambda v: None, "float": float, "int": int, "np": np.float64, "list": list, "array": np.array, "quantity": lambda v: v * u.kpc, "qarray": lambda v: np.array(v, dtype=float) * u.Hz,
            "str": str, "array2": np.array, "bool": bool}
    args = [make[k](v) for k, v in case]
    out, flag = utils.ensure_array(*args)
    check(len(out) == len(args), "number of results", got=out)
    check(bool(flag) == any(k in ("float", "int", "np", "quantity", "str", "bool") for k, _ in case), "any_not_arrays", got=flag)
    for (k, v), a, o in zip(case, args, out):
        if k == "none":
            check(o is None, "None becomes something", got=o)
            continue
        check(isinstance(o, np.ndarray), "not an array: " + k, got=o)
        if k in ("quantity", "qarray"):
            check(isinstance(o, u.Quantity) and o.unit == a.unit, "units lost", got=o)
            same(o.value, np.atleast_1d(np.asarray(v, dtype=float)), k)
        elif k in ("array", "array2", "list"):
            same(o, np.array(v), k)
        else:
            check(o.shape == (1,) and o[0] == v, "wrapped value", got=o)
