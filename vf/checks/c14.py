"""C14 a collection scores each member with the right SNR case"""
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check
from ..gen import close, logf, q, quiet, raises, same, val
from .c12 import loud
from legwork import snr, source

P = "C14"
NOISE = st.fixed_dictionaries({
    "instrument": st.sampled_from([None, None, "LISA", "TianQin", "custom", "DECIGO"]), "how": st.sampled_from(["args", "params"]),
    "T": st.one_of(st.none(), st.floats(0.5, 8.)), "model": st.sampled_from(["auto", "auto", None, "robson19", "karnesis21", "loud"]),
    "approx": st.booleans(), "L": st.sampled_from([None, None, 1.5e9])})
BASE = {"rows": coll.collection(tol=True), "set": coll.SETTINGS, "noise": NOISE, "n_step": st.integers(3, 8), "sky": st.booleans(),
        "merge": st.sampled_from([None, None, "time", "fit"]), "evolve": st.sampled_from([None, None, None, 1.0, 5.0, 1e3])}


def custom(f, t_obs="auto", L="auto", approximate_R=False, confusion_noise="auto"):
    f = f.to(u.Hz).value
    return 1e-41 * (1 + (1e-3 / f)**4 + (f / 1e-2)**2) / u.Hz


def prepare(case, klass=None):
    """collection, keyword arguments of get_snr*, noise keyword arguments for the oracle, observation time [yr]"""
    n, rws = case["noise"], case["rows"]
    with_sky = case["sky"] and all(r["e"] == 0 for r in rws)
    if case["sky"] and not with_sky:
        rws = [dict(r, e=0.0) for r in rws] if case["n_step"] % 2 else rws
        with_sky = bool(case["n_step"] % 2)
    kw = {}
    if n["instrument"] is not None:
        kw["instrument"] = n["instrument"]
    if n["instrument"] == "custom":
        kw["custom_psd"] = custom
    if n["T"] is not None:
        kw["t_obs"] = n["T"] * u.yr
    extra = {}
    if n["model"] != "auto":
        extra["confusion_noise"] = loud if n["model"] == "loud" else n["model"]
    if n["approx"]:
        extra["approximate_R"] = True
    if n["L"] is not None:
        extra["L"] = n["L"] * u.m
    T = n["T"] if n["T"] is not None else (4. if n["instrument"] in (None, "LISA") else 5.)
    oracle = dict(kw, **extra)
    oracle.pop("t_obs", None)
    if klass is None:
        kw.update(extra)
    elif n["how"] == "args":
        oracle = {k: v for k, v in oracle.items() if k not in extra}       # the subclasses take no such arguments
    else:
        kw.update(extra)
    if n["how"] == "params":
        # confusion_noise=None can only be given through the parameters
        s = coll.make(rws, case["set"], klass, with_sky, sc_params=dict(kw))
        kw = {}
    else:
        if "confusion_noise" in kw and kw["confusion_noise"] is None:
            kw.pop("confusion_noise")
            oracle.pop("confusion_noise")
        s = coll.make(rws, case["set"], klass, with_sky)
    if case["merge"] is not None:
        s.get_merger_time(exact=case["merge"] == "time")
    if case["evolve"] is not None:
        s.evolve_sources(case["evolve"] * u.yr)
    return s, kw, oracle, T


class Oracle:
    """SNR of single members through the single-source functions, with the direct noise"""

    def __init__(self, s, oracle, T, n_step):
        self.s, self.o, self.T, self.n_step = s, oracle, T, n_step
        self.m1, self.m2 = val(s.m_1, "Msun"), val(s.m_2, "Msun")
        self.f, self.d = val(s.f_orb, "Hz"), val(s.dist, "kpc")
        self.e = np.asarray(s.ecc, float)
        self.margin = coll.stationary_margin(self.m1, self.m2, self.f, self.e, T * ref.YR, s.stat_tol)
        self.growth = np.maximum(self.margin * (1 - (1 + s.stat_tol)**(-8. / 3)) * 0.375, 1e-300)
        self.circ = self.e <= s.ecc_tol
        self.stat = self.margin <= 1
        self.unsure = np.abs(self.margin - 1) < 1e-6
        self.need = np.asarray(s.harmonics_required(self.e))

    def cut(self, i):
        """the eccentric track ends (or starts) within the window before the merger that the evolution avoids"""
        tm = ref.t_merge(ref.sma(self.f[i], self.m1[i] * ref.MSUN, self.m2[i] * ref.MSUN), self.e[i],
                         ref.beta(self.m1[i] * ref.MSUN, self.m2[i] * ref.MSUN))
        return tm * 0.97 - 0.11 * ref.YR < self.T * ref.YR

    def one(self, i, stat, n=None, **kw):
        k = slice(i, i + 1)
        mc = ref.chirp_mass(self.m1[k], self.m2[k]) * u.Msun
        f, d, T = self.f[k] * u.Hz, self.d[k] * u.kpc, self.T * u.yr
        with quiet():
            if self.circ[i] and stat:
                s = self.s
                if s.position is not None:
                    kw.update(position=s.position[k], polarisation=s.polarisation[k], inclination=s.inclination[k])
                out = snr.snr_circ_stationary(m_c=mc, f_orb=f, dist=d, t_obs=T, **kw, **self.o)
            elif self.circ[i]:
                out = snr.snr_circ_evolving(m_1=self.m1[k] * u.Msun, m_2=self.m2[k] * u.Msun, f_orb_i=f, dist=d, t_obs=T,
                                            n_step=self.n_step, **kw, **self.o)
            elif stat:
                out = snr.snr_ecc_stationary(m_c=mc, f_orb=f, ecc=self.e[k], dist=d, t_obs=T, harmonics_required=n, **kw, **self.o)
            else:
                out = snr.snr_ecc_evolving(m_1=self.m1[k] * u.Msun, m_2=self.m2[k] * u.Msun, f_orb_i=f, dist=d, t_obs=T, ecc=self.e[k],
                                           harmonics_required=n, n_step=self.n_step, **kw, **self.o)
        return np.asarray(out)[0]

    def judge(self, i, got, stat, harm, rec):
        """got: SNR reported for member i as stationary/evolving; harm: reported loudest harmonic (or None)"""
        tol = 2e-2 if self.s.interpolate_sc else 1e-7
        if not stat:
            tol += 1e-13 / self.growth[i]       # cancellation in the frequency differences of a source that hardly moves
            if tol > 0.3:
                return got
        what = "SNR of member {} ({}, {})".format(i, "circular" if self.circ[i] else "eccentric", "stationary" if stat else "evolving")
        if self.circ[i]:
            want = self.one(i, stat)
            if self.s.interpolate_sc and not stat and val(self.s.f_orb, "Hz")[i] > 0.1:
                tol = 0.1
            check(abs(got - want) <= tol * want + 1e-30, what, got=got, want=want, e=self.e[i], f=self.f[i])
            if harm is not None:
                check(harm == 2, "loudest harmonic of a circular member", got=harm)
            return want
        need = int(self.need[i])
        up = 10
        while up < need:
            up *= 10
        if not stat and self.cut(i):
            rec.label("cut")
            check(np.isfinite(got) and got >= 0, what + " is not finite", got=got)
            return got
        lo, hi = self.one(i, stat, need), self.one(i, stat, up)
        check(lo * (1 - tol) - 1e-30 <= got <= hi * (1 + tol) + 1e-30, what + ": outside the range spanned by the required harmonics",
              got=got, lo=lo, hi=hi, e=self.e[i], f=self.f[i], need=need)
        if harm is not None:
            each = self.one(i, stat, up, ret_snr2_by_harmonic=True)
            check(1 <= harm <= up, "loudest harmonic out of range", got=harm)
            check(each[harm - 1] >= each.max() * (1 - 2 * tol), "loudest harmonic of member {}".format(i), got=int(harm),
                  want=int(each.argmax() + 1))
        return hi


def interp_ok(s, o):
    """interpolated curves are only promised where the noise is smooth on the table's scale: stay inside 1e-6 - 0.5 Hz"""
    if not s.interpolate_sc:
        return np.ones(s.n_sources, bool)
    return (o.f > 1e-6) & (o.f * np.where(o.circ, 2, np.maximum(o.need, 10)) < 0.5) & (o.margin < 1e3) & ~np.isin(o.o.get("instrument"), ["DECIGO"])


@facet(P, "members", st.fixed_dictionaries(BASE), 260, 5000,
       "random mixed collections (optionally evolved, with merger times, sky positions, any instrument, noise by argument or "
       "parameter): every member against the single-source function of its case; non-trivial: >= 2 cases present or a merged member",
       data=("harmonics",), shards=4, thorough_shards=8)
def members(case, rec):
    s, kw, oracle, T = prepare(case)
    o = Oracle(s, oracle, T, case["n_step"])
    with quiet():
        got = s.get_snr(n_step=case["n_step"], **kw)
    n = s.n_sources
    check(np.shape(got) == (n,), "SNR shape", got=np.shape(got))
    same(np.asarray(s.snr), np.asarray(got), "snr attribute")
    merged = np.asarray(s.merged)
    check(np.all(got[merged] == 0), "a merged member has a non-zero SNR", got=got[merged])
    check(np.all(np.isfinite(got)) and np.all(got >= 0), "SNR not finite or negative", got=got)
    kinds = {"merged" if m else ("circ" if c else "ecc") + ("-stat" if t else "-evol") for m, c, t in zip(merged, o.circ, o.stat)}
    rec.label(*kinds)
    rec.nontrivial(len(kinds) >= 2 or "merged" in kinds)
    usable = interp_ok(s, o)
    for i in range(n):
        if not merged[i] and not o.unsure[i] and usable[i]:
            o.judge(i, got[i], o.stat[i], s.max_snr_harmonic[i], rec)


@facet(P, "functions", st.fixed_dictionaries(dict(BASE, which=st.lists(st.booleans(), min_size=5, max_size=5), evolving=st.booleans(),
                                                  first=st.booleans())), 200, 4000,
       "get_snr_stationary / get_snr_evolving on random subsets: returned entries are those of the subset in order, attributes of the "
       "others untouched; non-trivial: a proper non-empty subset", data=("harmonics",), shards=2, thorough_shards=6)
def functions(case, rec):
    s, kw, oracle, T = prepare(case)
    o = Oracle(s, oracle, T, case["n_step"])
    n = s.n_sources
    which = np.array(case["which"][:n])
    rec.nontrivial(0 < which.sum() < n)
    rec.label("evolving" if case["evolving"] else "stationary")
    before = None
    with quiet():
        if case["first"] and not s.merged.all():
            s.get_snr(n_step=case["n_step"], **kw)
            before = (s.snr.copy(), s.max_snr_harmonic.copy())
        if case["evolving"]:
            got = s.get_snr_evolving(which_sources=which, n_step=case["n_step"], **kw)
        else:
            got = s.get_snr_stationary(which_sources=which, **kw)
    check(np.shape(got) == (which.sum(),), "number of SNRs returned for a subset", got=np.shape(got), want=int(which.sum()))
    same(np.asarray(s.snr)[which], np.asarray(got), "snr attribute of the subset")
    check(np.shape(s.snr) == (n,) and np.shape(s.max_snr_harmonic) == (n,), "attribute shape", snr=np.shape(s.snr))
    others = ~which
    if before is not None:
        same(s.snr[others], before[0][others], "SNR of members outside the subset")
        same(s.max_snr_harmonic[others], before[1][others], "loudest harmonic of members outside the subset")
    else:
        check(np.all(s.snr[others] == 0), "SNR of members that were never scored", got=s.snr[others])
    usable = interp_ok(s, o)
    for g, i in zip(got, np.flatnonzero(which).tolist()):
        if s.merged[i]:
            check(g == 0, "SNR of a merged member", got=g)
        elif usable[i]:
            o.judge(i, g, not case["evolving"], s.max_snr_harmonic[i], rec)


@facet(P, "rescored", st.fixed_dictionaries(dict(BASE, which=st.lists(st.sampled_from([True, True, True, False]), min_size=5, max_size=5), call=st.sampled_from(["get_snr", "get_snr_stationary", "get_snr_evolving"]),
                                                  frac=st.sampled_from([0.3, 1.001, 1.001, 1.2]), each=st.sampled_from([False, False, False, True]))), 100, 2000,
       "collections that are scored, evolved past some mergers and scored again (or a subset of them): the attributes then hold what a collection that was never scored before gets, merged members of "
       "the subset zero, the others what they had; non-trivial: an inspiralling and a merged member in the subset", data=("harmonics",), shards=2, thorough_shards=4)
def rescored(case, rec):
    s, kw, oracle, T = prepare(case)
    n, ns = s.n_sources, case["n_step"]
    which = np.array(case["which"][:n])
    more = {} if case["call"] == "get_snr_stationary" else {"n_step": ns}
    with quiet():
        s.get_snr(n_step=ns, **kw)
        tm = s.get_merger_time().to(u.s)
        live = tm[~np.asarray(s.merged)]
        if len(live):
            s.evolve_sources((np.sort(live)[(len(live) - 1) // 2] if not case["each"] else live.max()) * case["frac"])
        merged = np.asarray(s.merged)
        rec.nontrivial(bool((merged & which).any() and (~merged & which).any()))
        rec.label(case["call"])
        fresh = s.copy()
        fresh.snr = fresh.max_snr_harmonic = None
        old = s.snr.copy(), None if s.max_snr_harmonic is None else s.max_snr_harmonic.copy()
        want = np.asarray(getattr(fresh, case["call"])(which_sources=which, **more))
        got = np.asarray(getattr(s, case["call"])(which_sources=which, **more))
    same(got, want, "SNR of a collection that was scored before")
    snr = np.asarray(s.snr)
    check((snr[which & merged] == 0).all(), "the SNR from before the merger is still there", got=snr, merged=merged, which=which)
    same(snr[which], np.asarray(fresh.snr)[which], "snr attribute of the members scored again")
    if case["call"] != "get_snr":
        same(snr[~which], old[0][~which], "snr attribute of the others")
    if fresh.max_snr_harmonic is not None:
        ok = which & (snr > 0)
        same(np.asarray(s.max_snr_harmonic)[ok], np.asarray(fresh.max_snr_harmonic)[ok], "loudest harmonic of the members scored again")
        if old[1] is not None:
            same(np.asarray(s.max_snr_harmonic)[~which], old[1][~which], "loudest harmonic of the others")


@facet(P, "subsets", st.fixed_dictionaries(dict(BASE, which=st.lists(st.booleans(), min_size=5, max_size=5))), 120, 2500,
       "get_snr on a subset gives the entries of the full computation and nothing elsewhere; reversed, sliced and single-member "
       "collections give the same entries; non-trivial: >= 2 members", data=("harmonics",), shards=2, thorough_shards=6)
def subsets(case, rec):
    s, kw, oracle, T = prepare(case)
    o = Oracle(s, oracle, T, case["n_step"])
    n = s.n_sources
    rec.nontrivial(n > 1)
    which = np.array(case["which"][:n])
    ns = case["n_step"]
    sure = np.array([s.merged[i] or o.stat[i] or o.circ[i] or not o.cut(i) for i in range(n)]) & ~o.unsure
    with quiet():
        full = np.array(s.get_snr(n_step=ns, **kw))
        harm = np.array(s.max_snr_harmonic)
        part = s.get_snr(n_step=ns, which_sources=which, **kw)
        check(np.shape(part) == (n,), "SNR shape with which_sources", got=np.shape(part))
        close(part[which & sure], full[which & sure], 1e-9, what="SNR of the requested members")
        check(np.all(part[~which] == 0), "SNR outside the requested subset", got=part[~which])
        same(np.asarray(s.snr), np.asarray(part), "snr attribute")
        rev = s[::-1]
        close(np.asarray(rev.get_snr(n_step=ns, **kw))[::-1][sure], full[sure], 1e-9, what="reversed collection")
        if not s.merged.all():
            same(np.asarray(rev.max_snr_harmonic)[::-1][sure & (full > 0)], harm[sure & (full > 0)], "loudest harmonic in the reversed collection")
        for i in range(n):
            if sure[i]:
                alone = s[i].get_snr(n_step=ns, **kw)
                close(alone, full[[i]], 1e-9, what="member {} alone".format(i))
        twice = s[[0, n - 1, 0]].get_snr(n_step=ns, **kw)
        ok = sure[[0, n - 1, 0]]
        close(twice[ok], full[[0, n - 1, 0]][ok], 1e-9, what="repeated members")
        again = s.get_snr(n_step=ns, **kw)
        same(np.asarray(again), full, "SNR when computed again")


SWEEP = st.fixed_dictionaries({"tol": st.sampled_from([0.05, 0.01, 1e-3, 0.1, 0.2]), "lo": st.floats(0, 0.5), "span": st.one_of(st.floats(0.05, 0.45), st.just(0.45)), "n": st.integers(80, 160),
                               "evolving": st.booleans(), "m": logf(1., 50.), "f": logf(2e-5, 2e-3), "x": logf(0.3, 1e3), "n_step": st.integers(3, 5),
                               "order": st.integers(0, 999), "call": st.sampled_from(["auto", "case"])})


@facet(P, "sweep", SWEEP, 48, 1200,
       "80-160 members whose eccentricities step through every number of harmonics (and the thresholds at which it changes), shuffled: each between the SNR with the harmonics "
       "it needs and that with the next power of ten; non-trivial: members that need exactly a power of ten", data=("harmonics",), shards=4, thorough_shards=8)
def sweep(case, rec):
    n = case["n"]
    e = np.linspace(case["lo"], min(case["lo"] + case["span"], 0.949), n)
    m = np.full(n, case["m"])
    f = np.full(n, case["f"])
    if case["evolving"]:
        a = (case["x"] * ref.YR / np.array([ref.t_merge(1.0, x, ref.beta(m[0] * ref.MSUN, m[0] * ref.MSUN)) for x in e]))**0.25
        f = ref.forb(a, m * ref.MSUN, m * ref.MSUN)
    np.random.RandomState(case["order"]).shuffle(e) if not case["evolving"] else None
    if case["evolving"]:
        p = np.random.RandomState(case["order"]).permutation(n)
        e, f = e[p], f[p]
    s = source.Source(m_1=m * u.Msun, m_2=m * u.Msun, ecc=e, dist=np.full(n, 8.) * u.kpc, f_orb=f * u.Hz, gw_lum_tol=case["tol"], interpolate_g=False, interpolate_sc=False)
    o = Oracle(s, {}, 4., case["n_step"])
    if case["call"] == "auto":
        stat = o.stat
    else:
        stat = np.full(n, not case["evolving"])
    with quiet():
        if case["call"] == "auto":
            got = np.asarray(s.get_snr(n_step=case["n_step"]))
        elif case["evolving"]:
            got = np.asarray(s.get_snr_evolving(n_step=case["n_step"]))
        else:
            got = np.asarray(s.get_snr_stationary())
    check(np.shape(got) == (n,), "SNR shape", got=np.shape(got))
    need = np.asarray(o.need)
    up = 10**np.ceil(np.log10(np.maximum(need, 10)) - 1e-12).astype(int)
    ecc = ~o.circ & ~o.unsure
    rec.nontrivial(bool((need[ecc] == up[ecc]).any()))
    tol = np.where(stat, 1e-7, 1e-7 + 1e-13 / o.growth)
    with quiet():
        for k in sorted(set(need[ecc])):
            for st_ in (True, False):
                pick = np.flatnonzero(ecc & (need == k) & (stat == st_))
                if not st_:
                    pick = np.array([i for i in pick if not o.cut(i)], dtype=int)
                pick = pick[:4]
                if len(pick) == 0:
                    continue
                kw = dict(dist=s.dist[pick], ecc=e[pick], t_obs=4 * u.yr)
                one = []
                for h in (int(k), int(up[pick[0]])):
                    if st_:
                        one.append(snr.snr_ecc_stationary(m_c=s.m_c[pick], f_orb=s.f_orb[pick], harmonics_required=h, **kw))
                    else:
                        one.append(snr.snr_ecc_evolving(m_1=s.m_1[pick], m_2=s.m_2[pick], f_orb_i=s.f_orb[pick], harmonics_required=h, n_step=case["n_step"], **kw))
                lo, hi = one
                t = np.minimum(tol[pick], 0.3)
                ok = (got[pick] >= lo * (1 - t) - 1e-30) & (got[pick] <= hi * (1 + t) + 1e-30)
                check(ok.all(), "SNR of members that need {} harmonics ({})".format(k, "stationary" if st_ else "evolving"), got=got[pick], lo=lo, hi=hi, e=e[pick])


TF = st.sampled_from([None, True, False])


@facet(P, "masks", st.fixed_dictionaries({
    "rows": coll.collection(max_size=8, tol=True), "set": coll.SETTINGS, "T": st.one_of(st.none(), st.none(), st.floats(0.01, 100.)),
    "instrument": st.sampled_from(["LISA", "TianQin", "DECIGO"]), "param_T": st.one_of(st.none(), st.floats(0.1, 20.)),
    "tol2": st.one_of(st.none(), st.sampled_from([1e-3, 0.02, 0.2])),
    "near": st.lists(st.one_of(st.none(), st.floats(0.6, 1.6), st.floats(0.99, 1.01)), min_size=8, max_size=8)}), 240, 5000,
    "all nine masks against the definition, their partition, the default observation time, members close to the deciding frequency; non-trivial: both outcomes in some mask",
    data=("harmonics",), shards=2, thorough_shards=4)
def masks(case, rec):
    sp = {"instrument": case["instrument"]}
    if case["param_T"] is not None:
        sp["t_obs"] = case["param_T"] * u.yr
    s = coll.make(case["rows"], case["set"], sc_params=sp)
    if case["tol2"] is not None:
        s.gw_lum_tol = case["tol2"]
    T = case["T"] or case["param_T"] or (4. if case["instrument"] == "LISA" else 5.)
    kw = {} if case["T"] is None else {"t_obs": case["T"] * u.yr}
    n = s.n_sources
    e = np.asarray(s.ecc)

    def margin():
        return coll.stationary_margin(val(s.m_1, "Msun"), val(s.m_2, "Msun"), val(s.f_orb, "Hz"), e, T * ref.YR, s.stat_tol)
    near = case["near"][:n]
    if any(x is not None for x in near):
        rec.label("members close to the boundary")
        s.f_orb = np.array([(1 if x is None else (x / m)**0.375) for x, m in zip(near, margin())]) * s.f_orb
    m = margin()
    circ, stat, sure = e <= s.ecc_tol, m <= 1, np.abs(m - 1) > 1e-6
    rec.nontrivial(len(set(circ.tolist())) == 2 or len(set(stat.tolist())) == 2)
    out = {}
    for c in (None, True, False):
        for t in (None, True, False):
            got = np.asarray(s.get_source_mask(circular=c, stationary=t, **kw))
            check(got.shape == (n,) and got.dtype == bool, "mask shape or type", got=got)
            want = np.ones(n, bool)
            if c is not None:
                want &= circ if c else ~circ
            if t is not None:
                want &= stat if t else ~stat
            check(np.array_equal(got[sure], want[sure]), "mask circular={} stationary={}".format(c, t), got=got, want=want, e=e, margin=m)
            out[c, t] = got
    total = sum(out[c, t].astype(int) for c in (True, False) for t in (True, False))
    check(np.all(total == 1), "the four masks do not partition the collection", total=total)


@facet(P, "subclasses", st.fixed_dictionaries(dict(BASE, evolving=st.booleans())), 100, 2000,
       "Stationary / Evolving collections score every member in their case; non-trivial: some non-zero SNR",
       data=("harmonics",), shards=2, thorough_shards=4)
def subclasses(case, rec):
    klass = source.Evolving if case["evolving"] else source.Stationary
    s, kw, oracle, T = prepare(case, klass)
    o = Oracle(s, oracle, T, case["n_step"])
    if case["evolving"]:
        kw["n_step"] = case["n_step"]
    with quiet():
        got = s.get_snr(**kw)
    check(np.shape(got) == (s.n_sources,), "SNR shape", got=np.shape(got))
    same(np.asarray(s.snr), np.asarray(got), "snr attribute")
    rec.nontrivial(bool(np.any(got > 0)))
    rec.label(klass.__name__)
    usable = interp_ok(s, o)
    for i in range(s.n_sources):
        if s.merged[i]:
            check(got[i] == 0, "SNR of a merged member", got=got[i])
        elif usable[i]:
            o.judge(i, got[i], not case["evolving"], s.max_snr_harmonic[i], rec)


@facet(P, "bad_masks", st.fixed_dictionaries({"rows": coll.collection(max_size=2), "which": st.sampled_from(["circular", "stationary"]),
                                              "bad": st.one_of(st.text(max_size=5), st.integers(2, 9), st.floats(2., 3.))}), 12, 100,
       "mask arguments that are not None/True/False: ValueError; all non-trivial", data=("harmonics",))
def bad_masks(case, rec):
    rec.nontrivial()
    s = coll.make(case["rows"], {"units": dict(mass="Msun", freq="Hz", dist="kpc", len="m"), "tol": 0.05, "stat_tol": 1e-2, "sc": False,
                                 "use_a": False, "weights": False})
    raises(ValueError, lambda: s.get_source_mask(**{case["which"]: case["bad"]}), "get_source_mask with {!r}".format(case["bad"]))
