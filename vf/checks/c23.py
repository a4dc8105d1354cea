"""C23 plots show the right data and nothing else"""
import contextlib
import copy

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from .. import coll, ref
from ..core import facet, check, overlay_dir, Violation
from ..gen import close, col, logf, q, quiet, raises, same, unit
import legwork
from legwork import visualisation as vis
from .c12 import NOISE, noise
from .c17 import snapshot, expect

P = "C23"
plt.switch_backend("Agg")
USER_STYLE = st.sampled_from([{}, {"font.family": ["monospace"], "axes.linewidth": 3.3}, {"figure.figsize": [4.0, 3.0], "xtick.minor.visible": False, "lines.linewidth": 7.0}])


class Listener(legwork._logging.logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelname, record.getMessage()))


@contextlib.contextmanager
def stage(style):
    """the user's style, plt.show replaced by a counter; on leaving: the style is as it was and all figures are closed"""
    lg, h = legwork.logger, Listener()
    old_handlers, old_level, old_show = list(lg.handlers), lg.level, plt.show
    shown = []
    plt.close("all")
    with matplotlib.rc_context():
        matplotlib.rcParams.update(style)
        before = copy.deepcopy(dict(matplotlib.rcParams))
        plt.show = lambda *a, **k: shown.append(plt.get_fignums())
        try:
            with quiet():
                lg.handlers[:] = [h]
                lg.setLevel(10)
                yield shown, h.got
            after = dict(matplotlib.rcParams)
            diff = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
            check(not diff, "plotting changed global style settings", got={k: (before.get(k), after.get(k)) for k in diff})
        finally:
            lg.handlers[:] = old_handlers
            lg.setLevel(old_level)
            plt.show = old_show
            plt.close("all")


def target(how, rec):
    """keyword arguments for the figure and axis to draw on, and the pair that must be used (None: new)"""
    rec.label("figure: " + how)
    if how == "new":
        return {}, None
    fig, axes = plt.subplots(1, 2)
    if how == "both":
        return {"fig": fig, "ax": axes[1]}, (fig, axes[1])
    return ({"fig": fig} if how == "fig only" else {"ax": axes[1]}), None


TARGET = st.sampled_from(["new", "new", "both", "fig only", "ax only"])


def check_target(out, kw, pair, figs_before):
    check(isinstance(out, tuple) and len(out) == 2, "a figure and an axis should be returned", got=out)
    fig, ax = out
    check(isinstance(fig, plt.Figure) and isinstance(ax, plt.Axes) and ax.figure is fig, "returned figure and axis", got=out)
    new = len(plt.get_fignums()) - figs_before
    if pair is not None:
        check(fig is pair[0] and ax is pair[1], "the plot is not on the given figure and axis")
        check(new == 0, "an unwanted figure was created")
        check(not pair[0].axes[0].has_data(), "something was drawn on another axis of the user's figure")
    else:
        check(new == 1, "exactly one new figure should be created", got=new)
        check(fig not in kw.values() and ax not in kw.values(), "only one of figure and axis was given but is used")
    return fig, ax


def check_deco(ax, case, logx=False):
    for k, get in (("xlabel", ax.get_xlabel), ("ylabel", ax.get_ylabel)):
        if case[k] is not None:
            check(get() == case[k], k, got=get(), want=case[k])
    for k, get in (("xlim", ax.get_xlim), ("ylim", ax.get_ylim)):
        if case[k] is not None:
            want = np.log10(case[k]) if logx and k == "xlim" else case[k]
            close(get(), want, 1e-12, what=k)


LABEL = st.sampled_from([None, None, "my label", "$x$", ""])
LIM = st.one_of(st.none(), st.none(), st.tuples(logf(1e-3, 1.), st.floats(2., 1e3)).map(list))
DECO = {"xlabel": LABEL, "ylabel": LABEL, "xlim": LIM, "ylim": LIM}
DATA = st.one_of(st.lists(logf(1e-2, 1e2), min_size=3, max_size=40), st.lists(st.integers(1, 9).map(float), min_size=3, max_size=25))
UN = st.sampled_from([None, None, "Msun", "kpc", "mHz", "AU", ""])


def many_bins(x):
    s = np.subtract(*np.percentile(x, [75, 25]))
    return s > 0 and np.ptp(x) / (2 * s / len(x)**(1 / 3)) > 2000


@facet(P, "distribution", st.fixed_dictionaries(dict(DECO, x=DATA, unit=UN, neg=st.booleans(), weights=st.one_of(st.none(), st.lists(st.floats(0.1, 5.), min_size=40, max_size=40)),
                                                     type=st.sampled_from(["hist", "hist", "default", "kde", "ecdf"]), log=st.booleans(), target=TARGET, show=st.booleans(), style=USER_STYLE,
                                                     bins=st.one_of(st.none(), st.none(), st.integers(1, 30), st.sampled_from(["auto", "sturges", "edges"])), range=st.sampled_from([None, None, [0.1, 0.7], [-0.3, 1.4]]),
                                                     density=st.sampled_from([None, True, False]), stat=st.sampled_from([None, "count"]), color=st.sampled_from([None, "tab:red", "#18068b"]))), 200, 4000,
       "one-dimensional distributions of random data with and without units and weights: the drawn bars/curves against numpy/scipy, labels, limits, figure, "
       "style settings and inputs; non-trivial: >= 2 distinct values", shards=2)
def distribution(case, rec):
    import scipy.stats
    x = np.array(case["x"])
    log = case["log"]
    kind = "hist" if case["type"] == "default" else case["type"]
    if case["neg"] and not log:
        x = x - np.median(x)
    if len(np.unique(x)) < 2 or (kind == "kde" and np.ptp(x) / np.abs(x).max() < 1e-3):
        return
    w = None if case["weights"] is None else np.array(case["weights"][:len(x)])
    X = x if case["unit"] is None else x * u.Unit(case["unit"])
    rec.nontrivial()
    rec.label(kind, "weights" if w is not None else "no weights", "log" if log else "linear", "units" if case["unit"] else "no units")
    y = np.log10(x) if log else x
    kw = {k: v for k, v in case.items() if k in DECO and v is not None}
    if case["type"] != "default":
        kw["disttype"] = kind
    if kind == "hist":
        bins = case["bins"]
        if bins in (None, "auto") and many_bins(y):
            bins = 7
        edges = np.histogram_bin_edges(y, 11)
        if bins == "edges":
            kw["bins"] = edges if log or not isinstance(X, u.Quantity) else edges * X.unit
        elif bins is not None:
            kw["bins"] = bins
        if case["density"] is not None:
            kw["density"] = case["density"]
        span = None
        if case["range"] is not None and bins != "edges" and (log or not isinstance(X, u.Quantity)):
            span = tuple(float(y.min() + k * np.ptp(y)) for k in case["range"])
            inside = y[(y >= span[0]) & (y <= span[1])]
            if len(inside) < 3 or (bins in (None, "auto") and many_bins(inside)) or (bins in (None, "auto") and np.ptp(span) > 50 * np.ptp(inside)):
                span = None
            else:
                kw["range"] = span
                rec.label("range")
    elif kind == "ecdf" and case["stat"]:
        kw["stat"] = case["stat"]
    if case["color"]:
        kw["color"] = case["color"]
    X0, w0 = copy.deepcopy(X), copy.deepcopy(w)
    with stage(case["style"]) as (shown, said):
        tkw, pair = target(case["target"], rec)
        n = len(plt.get_fignums())
        fig, ax = check_target(vis.plot_1D_dist(X, weights=w, log_scale=log, show=case["show"], **tkw, **kw), tkw, pair, n)
        same(X, X0, "the data were changed")
        if w is not None:
            same(w, w0, "the weights were changed")
        check(len(shown) == case["show"], "plt.show", got=len(shown), want=case["show"])
        check_deco(ax, case, log and kind == "hist")
        if kind == "hist":
            check(len(ax.lines) == 0 and len(ax.collections) == 0, "something else than bars was drawn")
            b = {None: "fd", "edges": edges}.get(bins, bins) if not isinstance(bins, int) else bins
            want_e = np.histogram_bin_edges(y, b, range=span)
            want_h, _ = np.histogram(y, want_e, weights=w, density=case["density"] is not False)
            p = ax.patches
            check(len(p) == len(want_h), "number of bars", got=len(p), want=len(want_h))
            close([r.get_x() for r in p], want_e[:-1], 1e-9, 1e-9 * np.abs(want_e).max(), "left edges of the bars")
            close([r.get_width() for r in p], np.diff(want_e), 1e-9, 1e-9 * np.abs(want_e).max(), "widths of the bars")
            close([r.get_height() for r in p], want_h, 1e-9, 1e-12, "heights of the bars")
            if case["color"]:
                check(matplotlib.colors.same_color(p[0].get_facecolor(), case["color"]), "colour of the bars")
            return
        check(len(ax.lines) == 1 and not ax.patches and not ax.collections, "exactly one curve should be drawn", got=(len(ax.lines), len(ax.patches), len(ax.collections)))
        check(ax.get_xscale() == ("log" if log else "linear"), "scale of the x axis", got=ax.get_xscale())
        lx, ly = np.array(ax.lines[0].get_xdata(orig=True), dtype=float), np.array(ax.lines[0].get_ydata(orig=True), dtype=float)
        ww = np.ones(len(x)) if w is None else w
        if case["color"]:
            check(matplotlib.colors.same_color(ax.lines[0].get_color(), case["color"]), "colour of the curve")
        if kind == "ecdf":
            lx, ly = lx[1:], ly[1:]
            o = np.argsort(x)
            check(len(lx) == len(x), "number of steps", got=len(lx), want=len(x))
            close(lx, x[o], 1e-9, what="positions of the steps")
            total = ww.sum() if case["stat"] != "count" else 1.0
            last = np.append(x[o][1:] != x[o][:-1], True)         # equal values may come in any order
            close(ly[last], (np.cumsum(ww[o]) / total)[last], 1e-9, what="heights of the steps")
        else:
            k = scipy.stats.gaussian_kde(y, "scott", ww)
            check(len(lx) == 200, "number of points of the density", got=len(lx))
            gx = np.log10(lx) if log else lx
            check(gx[0] < y.min() and gx[-1] > y.max(), "the density does not cover the data", got=(gx[0], gx[-1]), want=(y.min(), y.max()))
            close(ly, k(gx), 1e-6, 1e-9 * ly.max(), "density")


def points(ax):
    check(len(ax.collections) == 1, "exactly one set of points should be drawn", got=len(ax.collections))
    c = ax.collections[0]
    return c, np.ma.getdata(c.get_offsets()).astype(float)


XY = st.lists(st.tuples(logf(1e-2, 1e2), logf(1e2, 1e5), st.floats(0.1, 5.)), min_size=1, max_size=25)


@facet(P, "two_dimensions", st.fixed_dictionaries(dict(DECO, xy=XY, ux=UN, uy=UN, weights=st.booleans(), type=st.sampled_from(["scatter", "default", "scatter", "kde"]),
                                                       log=st.sampled_from([None, True, False, [True, False], [False, True]]), target=TARGET, show=st.booleans(), style=USER_STYLE,
                                                       s=st.one_of(st.none(), st.floats(1., 90.)), color=st.sampled_from([None, "tab:red", "#18068b"]), label=st.sampled_from([None, "a label"]),
                                                       twice=st.sampled_from([None, None, "pc", "uHz", "Msun"]))), 200, 4000,
       "two-dimensional distributions of random data with and without units and weights: drawn points and sizes, density contours, scales, labels, limits; a second set on "
       "the same axis in another unit; non-trivial: >= 2 points", shards=2)
def two_dimensions(case, rec):
    xy = np.array(case["xy"])
    x, y, w = xy[:, 0], xy[:, 1], xy[:, 2] if case["weights"] else None
    kde = case["type"] == "kde"
    if kde and (len(x) < 5 or np.abs(np.corrcoef(np.log(x), np.log(y))[0, 1]) > 0.95 or np.ptp(np.log(x)) < 0.1 or np.ptp(np.log(y)) < 0.1
                or np.abs(np.corrcoef(x, y)[0, 1]) > 0.95 or np.abs(np.corrcoef(x, np.log(y))[0, 1]) > 0.95 or np.abs(np.corrcoef(np.log(x), y)[0, 1]) > 0.95):
        return
    X = x if case["ux"] is None else x * u.Unit(case["ux"])
    Y = y if case["uy"] is None else y * u.Unit(case["uy"])
    rec.nontrivial(len(x) >= 2)
    rec.label("kde" if kde else "scatter", "weights" if w is not None else "no weights")
    kw = {k: v for k, v in case.items() if k in DECO and v is not None}
    if case["type"] != "default":
        kw["disttype"] = case["type"]
    log = case["log"]
    if log is not None:
        kw["log_scale"] = log if isinstance(log, bool) else tuple(log)
    lx, ly = (False, False) if log is None else (log, log) if isinstance(log, bool) else log
    for k in ("color", "label") if not kde else ("color",):
        if case[k]:
            kw[k] = case[k]
    if case["s"]:
        kw["scatter_s"] = case["s"]
    X0, Y0, w0 = copy.deepcopy(X), copy.deepcopy(Y), copy.deepcopy(w)
    with stage(case["style"]) as (shown, said):
        tkw, pair = target(case["target"], rec)
        n = len(plt.get_fignums())
        fig, ax = check_target(vis.plot_2D_dist(X, Y, weights=w, show=case["show"], **tkw, **kw), tkw, pair, n)
        same(X, X0, "x was changed")
        same(Y, Y0, "y was changed")
        if w is not None:
            same(w, w0, "the weights were changed")
        check(len(shown) == case["show"], "plt.show", got=len(shown), want=case["show"])
        check_deco(ax, case)
        check((ax.get_xscale(), ax.get_yscale()) == ("log" if lx else "linear", "log" if ly else "linear"), "scales", got=(ax.get_xscale(), ax.get_yscale()), want=(lx, ly))
        if kde:
            check(len(ax.collections) >= 1 and not ax.lines, "contours should be drawn", got=len(ax.collections))
            v = np.concatenate([np.concatenate([p.vertices for p in c.get_paths()]) for c in ax.collections if len(c.get_paths())])
            for i, (z, lg) in enumerate(((x, lx), (y, ly))):
                z, v_i = (np.log10(z), np.log10(v[:, i])) if lg else (z, v[:, i])
                v_i = v_i[np.isfinite(v_i)]
                lo, hi = z.min() - 3.5 * z.std(ddof=1), z.max() + 3.5 * z.std(ddof=1)
                check(v_i.min() >= lo and v_i.max() <= hi and v_i.max() > z.min() and v_i.min() < z.max(), "extent of the contours along axis {}".format(i),
                      got=(v_i.min(), v_i.max()), want=(lo, hi))
            import seaborn
            other = plt.figure().add_subplot()
            seaborn.kdeplot(x=x, y=y, weights=w, ax=other, log_scale=(lx, ly), gridsize=200, levels=10, thresh=0.02)
            a, b = (np.concatenate([p.vertices for c in z.collections for p in c.get_paths() if len(p.vertices)]) for z in (ax, other))
            check(a.shape == b.shape, "contours against those of the same data and weights drawn directly", got=a.shape, want=b.shape)
            close(a, b, 1e-6, 1e-9 * np.abs(b).max(0), what="contours against those of the same data and weights drawn directly")
            return
        c, off = points(ax)
        close(off, np.array([x, y]).T, 1e-12, what="positions of the points")
        sizes = np.broadcast_to(c.get_sizes(), (len(x),)) if len(c.get_sizes()) == 1 else c.get_sizes()
        close(sizes, (case["s"] or 20) * (np.ones(len(x)) if w is None else w), 1e-12, what="sizes of the points")
        if case["color"]:
            check(matplotlib.colors.same_color(c.get_facecolor()[0], case["color"]), "colour of the points")
        if case["label"]:
            check(c.get_label() == case["label"], "label of the points", got=c.get_label())
        if case["ux"] in ("kpc", "mHz", "Msun") and case["twice"] is not None:
            # a second set in another unit on the same axis lands where it belongs
            try:
                X2 = X.to(case["twice"])
            except u.UnitConversionError:
                return
            rec.label("second set in another unit")
            vis.plot_2D_dist(X2, Y, show=False, fig=fig, ax=ax)
            check(len(ax.collections) == 2, "second set of points")
            close(np.ma.getdata(ax.collections[1].get_offsets()), np.array([x, y]).T, 1e-9, what="positions of points given in another unit")


def ref_curve(case, f):
    """noise settings (keyword arguments, reference function) without the interpolated instrument"""
    c = copy.deepcopy(case)
    if c["noise"]["instrument"] == "interp":
        c["noise"]["instrument"] = "LISA"
    kw, S = noise(c)
    return dict(kw, t_obs=c["T"] * u.yr), S


FREQ = st.one_of(st.none(), st.tuples(logf(1e-6, 1e-3), logf(3e-3, 1.), st.integers(2, 60)).map(list))
EDGES = (1e-7, 2.0, 1e-3, 100., 1e-4, 1.0, 1e-5, 0.5)
T_OBS = st.one_of(st.sampled_from([0.5, 1., 4., 5., 10.]), st.floats(0.1, 10.))


def near_edge(f):
    return any((np.abs(np.asarray(f) / x - 1) < 1e-9).any() for x in EDGES)


@facet(P, "curve", st.fixed_dictionaries({"f": FREQ, "unit": unit("freq"), "y": st.sampled_from([None, "ASD", "h_c", "h_c", "PSD"]), "noise": NOISE, "T": T_OBS, "target": TARGET, "show": st.booleans(),
                                          "fill": st.sampled_from([None, True, False]), "alpha": st.sampled_from([None, 0.5]), "lw": st.sampled_from([None, 3.5]), "color": st.sampled_from([None, "tab:red"]),
                                          "label": st.sampled_from([None, "LISA"]), "style": USER_STYLE, "kw_t": st.booleans(), "order": st.sampled_from([None, None, "falling", "shuffled"])}), 200, 4000,
       "sensitivity curves for random instrument settings and frequency ranges in any unit: the drawn curve and filled area against the reference noise model; "
       "non-trivial: finite noise somewhere", shards=2)
def curve(case, rec):
    nk, S = ref_curve(case, None)
    f = np.logspace(-5, 0, 1000) if case["f"] is None else np.logspace(np.log10(case["f"][0]), np.log10(case["f"][1]), case["f"][2])
    if near_edge(f):
        f = f * (1 + 1e-6)
    if case["f"] is not None and case["order"] is not None:
        f = f[::-1] if case["order"] == "falling" else np.random.RandomState(len(f)).permutation(f)
        rec.label(case["order"] + " frequencies")
    kw = dict(nk)
    if case["f"] is not None or near_edge(np.logspace(-5, 0, 1000)):
        kw["frequency_range"] = q(f, "Hz", case["unit"])
    fr0 = copy.deepcopy(kw.get("frequency_range"))
    for k, v in (("fill", case["fill"]), ("alpha", case["alpha"]), ("linewidth", case["lw"]), ("color", case["color"]), ("label", case["label"]), ("y_quantity", case["y"])):
        if v is not None:
            kw[k] = v
    rec.label(case["noise"]["instrument"], case["y"] or "default quantity")
    with stage(case["style"]) as (shown, said):
        tkw, pair = target(case["target"], rec)
        n = len(plt.get_fignums())
        if case["y"] == "PSD":
            raises(ValueError, lambda: vis.plot_sensitivity_curve(show=case["show"], **tkw, **kw), "unknown quantity")
            check(not shown, "shown despite the error")
            return
        out = vis.plot_sensitivity_curve(show=case["show"], **tkw, **kw)
        fig, ax = check_target(out, tkw, pair, n)
        check(len(shown) == case["show"], "plt.show", got=len(shown), want=case["show"])
        if fr0 is not None:
            same(kw["frequency_range"], fr0, "the frequencies were changed")
        with np.errstate(all="ignore"):
            want = np.sqrt(S(f) * (f if case["y"] == "h_c" else 1.0))
        rec.nontrivial(bool(np.isfinite(want).any()))
        check(len(ax.lines) == 1, "exactly one curve should be drawn", got=len(ax.lines))
        ln = ax.lines[0]
        xy = np.ma.getdata(ln.get_xydata()).astype(float)
        close(xy[:, 0], f, 1e-9, what="frequencies of the curve [Hz]")
        fin = np.isfinite(want)
        close(xy[fin, 1], want[fin], 1e-6, what="curve")
        check(not np.isfinite(xy[~fin, 1]).any(), "the curve is finite outside the band", got=xy[~fin, 1])
        check((ax.get_xscale(), ax.get_yscale()) == ("log", "log"), "scales")
        close(ax.get_xlim(), (f.min(), f.max()), 1e-9, what="frequency limits")
        check("Hz" in ax.get_xlabel() and "requency" in ax.get_xlabel(), "x label", got=ax.get_xlabel())
        check(("Hz" in ax.get_ylabel()) == (case["y"] != "h_c"), "y label", got=ax.get_ylabel())
        fill = case["fill"] is not False
        check(len(ax.collections) == fill, "filled areas", got=len(ax.collections), want=fill)
        if fill and fin.all():
            v = ax.collections[0].get_paths()[0].vertices
            for fi, wi in zip(f, want):
                at = v[np.abs(v[:, 0] / fi - 1) < 1e-9]
                check(len(at) >= 2 and np.isclose(at[:, 1].max(), wi, rtol=1e-6) and at[:, 1].min() == 0, "area below the curve", got=at, want=(0, wi))
            check(ax.collections[0].get_alpha() == (case["alpha"] or 0.2), "opacity", got=ax.collections[0].get_alpha())
        if case["lw"]:
            check(ln.get_linewidth() == case["lw"], "line width", got=ln.get_linewidth())
        if case["color"]:
            check(matplotlib.colors.same_color(ln.get_color(), case["color"]), "colour")
        if case["label"]:
            check(ln.get_label() == case["label"], "label", got=ln.get_label())


SRC = st.lists(st.tuples(logf(2e-5, 0.4), st.one_of(logf(1e-2, 1e4), st.floats(4., 12.)), st.floats(0.1, 5.)), min_size=1, max_size=20)


@facet(P, "overlay", st.fixed_dictionaries({"src": SRC, "unit": unit("freq"), "cut": st.sampled_from([None, 0, 7.0, 7.0, 12.5, 1e3, "tie"]), "weights": st.booleans(), "noise": NOISE, "T": T_OBS, "target": TARGET,
                                            "curve": st.booleans(), "y": st.sampled_from([None, "ASD", "h_c", "h_c"]), "show": st.booleans(), "s": st.sampled_from([None, 35.]), "label": st.sampled_from([None, "srcs"]),
                                            "style": USER_STYLE}), 200, 4000,
       "sources on a sensitivity curve: only those above the cut-off, at their frequency and SNR times the reference noise amplitude, with their weights, on a new or given figure; "
       "non-trivial: some above and some below the cut-off", shards=2)
def overlay(case, rec):
    nk, S = ref_curve(case, None)
    f, snr, w = np.array(case["src"]).T
    if case["cut"] == "tie":
        case = dict(case, cut=float(np.sort(snr)[(len(snr) - 1) // 2]))
        rec.label("a source exactly at the cut-off")
    cut = case["cut"] or 0
    if near_edge(f):
        return
    up = snr > cut
    rec.nontrivial(bool(up.any() and (cut == 0 or not up.all())))
    rec.label(case["noise"]["instrument"], "none above" if not up.any() else "all above" if up.all() else "some above")
    kw = dict(nk)
    if case["cut"] is not None:
        kw["snr_cutoff"] = case["cut"]
    if case["weights"]:
        kw["weights"] = w.copy()
    if case["s"]:
        kw["scatter_s"] = case["s"]
    if case["label"]:
        kw["label"] = case["label"]
    if case["y"]:
        kw["sc_vis_settings"] = {"y_quantity": case["y"]}
    vs0 = copy.deepcopy(kw.get("sc_vis_settings"))
    F = q(f, "Hz", case["unit"])
    F0, snr0 = F.copy(), snr.copy()
    with stage(case["style"]) as (shown, said):
        tkw, pair = target(case["target"], rec)
        if pair is not None and case["curve"]:
            vis.plot_sensitivity_curve(show=False, fig=pair[0], ax=pair[1], **nk, **({"y_quantity": case["y"]} if case["y"] else {}))
            rec.label("curve already drawn")
        ylim = pair[1].get_ylim() if pair is not None else None
        nl, nc = (len(pair[1].lines), len(pair[1].collections)) if pair else (1, 1)
        n = len(plt.get_fignums())
        fig, ax = check_target(vis.plot_sources_on_sc(f_dom=F, snr=snr, show=case["show"], **tkw, **kw), tkw, pair if nl or up.any() else None if pair is None else pair, n)
        same(F, F0, "the frequencies were changed")
        same(snr, snr0, "the signal-to-noise ratios were changed")
        if case["weights"]:
            same(kw["weights"], w, "the weights were changed")
        check(kw.get("sc_vis_settings") == vs0, "the curve settings were changed", got=kw.get("sc_vis_settings"))
        check(len(ax.lines) == nl, "number of curves", got=len(ax.lines), want=nl)
        if pair is None:
            fl = np.logspace(-5, 0, 1000)
            with np.errstate(all="ignore"):
                cv = np.sqrt(S(fl) * (fl if case["y"] == "h_c" else 1.0))
            xy = np.ma.getdata(ax.lines[0].get_xydata()).astype(float)
            ok = np.isfinite(cv) & ~np.array([near_edge(z) for z in fl])
            close(xy[ok, 1], cv[ok], 1e-6, what="curve under the sources")
        if not up.any():
            check([x[0] for x in said] == ["ERROR"], "an error should be reported when nothing is above the cut-off", got=said)
            check(len(ax.collections) == nc, "points were drawn although nothing is above the cut-off")
            return
        check(not said, "unexpected messages", got=said)
        check(len(shown) == case["show"], "plt.show", got=len(shown), want=case["show"])
        if ylim is not None:
            close(ax.get_ylim(), ylim, 1e-12, what="the height limits were changed")
        check(len(ax.collections) == nc + 1, "exactly one set of points should be drawn", got=len(ax.collections), want=nc + 1)
        c = ax.collections[-1]
        off = np.ma.getdata(c.get_offsets()).astype(float)
        with np.errstate(all="ignore"):
            h = snr * np.sqrt(S(f) * (f if case["y"] == "h_c" else 1.0))
        check(off.shape == (up.sum(), 2), "number of points", got=off.shape, want=int(up.sum()))
        scale = 1.0 if pair is None or case["curve"] else (1 * u.Hz).to(F.unit).value
        close(off[:, 0], f[up] * scale, 1e-9, what="frequencies of the points")
        fin = np.isfinite(h[up])
        if case["y"] == "h_c" and pair is not None and not case["curve"]:
            fin &= F.unit == u.Hz           # drawn in whatever unit the empty axis takes
        close(off[fin, 1], h[up][fin], 1e-6, what="heights of the points")
        sizes = c.get_sizes()
        close(np.broadcast_to(sizes, (up.sum(),)) if len(sizes) == 1 else sizes, (case["s"] or 20) * (w[up] if case["weights"] else np.ones(up.sum())), 1e-12, what="sizes of the points")
        if case["label"]:
            check(c.get_label() == case["label"], "label", got=c.get_label())


VARS = ["m_1", "m_2", "m_c", "ecc", "dist", "f_orb", "f_GW", "a", "snr"]


def values(s, name, before):
    """reference value of a plotted variable from the primary attributes"""
    m1, m2, f = s.m_1.to(u.kg).value, s.m_2.to(u.kg).value, s.f_orb.to(u.Hz).value
    return {"m_1": m1 / ref.MSUN, "m_2": m2 / ref.MSUN, "m_c": ref.chirp_mass(m1, m2) / ref.MSUN, "ecc": np.asarray(s.ecc), "dist": s.dist.to(u.kpc).value, "f_orb": f, "f_GW": 2 * f,
            "a": ref.sma(f, m1, m2) / ref.AU, "snr": s.snr}[name]


NAMES = {"m_1": "primary mass", "m_2": "secondary mass", "m_c": "chirp mass", "ecc": "eccentricity", "dist": "distance", "f_orb": "orbital frequency", "f_GW": "gravitational wave frequency",
         "a": "semi-major axis", "snr": "signal-to-noise"}
BASE_UNIT = {"m_1": u.Msun, "m_2": u.Msun, "m_c": u.Msun, "ecc": u.one, "dist": u.kpc, "f_orb": u.Hz, "f_GW": u.Hz, "a": u.AU, "snr": u.one}


@facet(P, "variables", st.fixed_dictionaries({"rows": coll.collection(min_size=2, max_size=8), "set": coll.SETTINGS, "x": st.sampled_from(VARS + ["q"]), "y": st.sampled_from([None, None] + VARS + ["q"]),
                                              "mask": st.one_of(st.none(), st.lists(st.booleans(), min_size=8, max_size=8)), "exclude": st.sampled_from([None, True, False]), "evolve": st.sampled_from([None, 1., 10., 1e3]),
                                              "snr": st.sampled_from([True, True, False]), "log": st.sampled_from([None, True, False, False, [True, False], [False, True], [False, False]]), "kind": st.sampled_from([None, "ecdf", "ecdf", "hist"]),
                                              "xlabel": LABEL, "style": USER_STYLE, "show": st.booleans()}), 300, 4000,
       "distributions of the variables of random, partly merged collections: exactly the selected unmerged members, their values, weights, labels with the right units; "
       "errors for unknown or missing variables; non-trivial: some but not all members drawn", data=("harmonics",), shards=3, thorough_shards=4)
def variables(case, rec):
    s = coll.make(case["rows"], case["set"])
    with quiet():
        if case["snr"]:
            s.get_snr()
        if case["evolve"]:
            s.evolve_sources(case["evolve"] * u.yr)
    xs, ys, log = case["x"], case["y"], case["log"]
    kw = {}
    keep = np.ones(s.n_sources, bool)
    if case["mask"] is not None:
        kw["which_sources"] = np.array(case["mask"][:s.n_sources])
        keep &= kw["which_sources"]
    if case["exclude"] is not None:
        kw["exclude_merged_sources"] = case["exclude"]
    if case["exclude"] is not False:
        keep &= ~np.asarray(s.merged)
    if ys is None and isinstance(log, list):
        log = log[0]
    if log is not None:
        kw["log_scale"] = log if isinstance(log, bool) else tuple(log)
    lx, ly = (bool(log), bool(log)) if not isinstance(log, list) else log
    if case["xlabel"] is not None:
        kw["xlabel"] = case["xlabel"]
    rec.label("1D" if ys is None else "2D", "merged members" if np.any(s.merged) else "no merged members")
    snap = snapshot(s)
    with stage(case["style"]) as (shown, said):
        bad = "q" in (xs, ys) or (s.snr is None and "snr" in (xs, ys))
        if bad:
            rec.label("invalid variable")
            raises(ValueError, lambda: s.plot_source_variables(xs, ystr=ys, show=False, **kw), "unknown or missing variable")
            expect(s, snap, "failed plot")
            return
        x = values(s, xs, None)[keep]
        y = None if ys is None else values(s, ys, None)[keep]
        kind = case["kind"]
        if ys is None:
            if len(np.unique(x)) < 2 or (lx and (x <= 0).any()) or np.ptp(x) / np.abs(x).max() < 1e-6:
                return
            if kind is not None:
                kw["disttype"] = kind
            if kind != "ecdf" and many_bins(np.log10(x) if lx else x):
                return
        elif not keep.any():
            return
        rec.nontrivial(bool(keep.any() and not keep.all()))
        mask0 = None if "which_sources" not in kw else kw["which_sources"].copy()
        n = len(plt.get_fignums())
        out = s.plot_source_variables(xs, show=case["show"], **kw) if ys is None else s.plot_source_variables(xs, ys, show=case["show"], **kw)
        fig, ax = check_target(out, {}, None, n)
        expect(s, snap, "plotting changed the collection")
        if mask0 is not None:
            same(kw["which_sources"], mask0, "the mask was changed")
        check(len(shown) == case["show"], "plt.show", got=len(shown))
        un = {k: getattr(s, "f_orb" if k == "f_GW" else k) for k in (xs, ys) if k}
        fac = {k: ((1 * v.unit).to(BASE_UNIT[k]).value if isinstance(v, u.Quantity) else 1.0) for k, v in un.items()}
        for k, lab in ((xs if case["xlabel"] is None else None, ax.get_xlabel()), (ys, ax.get_ylabel())):
            if k is None:
                continue
            if isinstance(un[k], u.Quantity) and k not in ("ecc", "snr"):
                check("{:latex}".format(un[k].unit).strip("$") in lab, "the label does not name the unit of " + k, got=lab, want=str(un[k].unit))
            check(NAMES[k] in lab.lower(), "the label does not name the variable " + k, got=lab, want=NAMES[k])
            check(not any(NAMES[v] in lab.lower() for v in NAMES if v != k), "the label names another variable than " + k, got=lab)
            # bars over logarithms say so, other axes do not (their scale shows it)
            logs = ys is None and lx and kind in (None, "hist")
            check(("log" in lab.lower()) == logs, "the label of {} speaks of logarithms, or should".format(k), got=lab, want=logs)
        if ys is None:
            lab = ax.get_ylabel()
            check(("log" in lab.lower()) == lx, "the label of the density speaks of logarithms, or should", got=lab, want=lx)
        if case["xlabel"] is not None:
            check(ax.get_xlabel() == case["xlabel"], "the user's label is not used", got=ax.get_xlabel())
        w = None if s.weights is None else np.asarray(s.weights)[keep]
        if ys is not None:
            c, off = points(ax)
            check(len(off) == keep.sum(), "number of points", got=len(off), want=int(keep.sum()))
            close(off[:, 0] * fac[xs], x, 1e-7, 1e-12 * np.abs(x).max(), "x: " + xs)
            close(off[:, 1] * fac[ys], y, 1e-7, 1e-12 * np.abs(y).max(), "y: " + ys)
            sizes = c.get_sizes()
            close(np.broadcast_to(sizes, (len(x),)) if len(sizes) == 1 else sizes, 20 * (np.ones(len(x)) if w is None else w), 1e-12, what="sizes of the points")
            check((ax.get_xscale(), ax.get_yscale()) == ("log" if lx else "linear", "log" if ly else "linear"), "scales", got=(ax.get_xscale(), ax.get_yscale()), want=(lx, ly))
            return
        ww = np.ones(len(x)) if w is None else w
        if kind == "ecdf":
            check(len(ax.lines) == 1, "exactly one curve should be drawn", got=len(ax.lines))
            px, py = np.array(ax.lines[0].get_xdata(), float)[1:], np.array(ax.lines[0].get_ydata(), float)[1:]
            o = np.argsort(x)
            check(len(px) == len(x), "number of members drawn", got=len(px), want=len(x))
            close(px * fac[xs], x[o], 1e-7, what=xs)
            last = np.append(np.diff(x[o]) > 1e-6 * x[o][1:], True)
            close(py[last], (np.cumsum(ww[o]) / ww.sum())[last], 1e-9, what="weights of the members")
        else:
            # bars: the area is one and the weight left of every edge is that of the members there
            p = ax.patches
            z = np.log10(x / fac[xs]) if lx else x / fac[xs]
            h, wd, x0 = (np.array([g(r) for r in p]) for g in (lambda r: r.get_height(), lambda r: r.get_width(), lambda r: r.get_x()))
            close((h * wd).sum(), 1.0, 1e-9, what="area of the bars")
            for i in range(len(p)):
                e = x0[i] + wd[i]
                if (np.abs(z - e) < 1e-6 * np.ptp(z)).any():
                    continue
                close((h * wd)[:i + 1].sum(), ww[z < e].sum() / ww.sum(), 1e-7, 1e-9, "bars up to edge {}".format(i))


SC = st.fixed_dictionaries({"instrument": st.sampled_from(["LISA", "LISA", "LISA", "TianQin", "DECIGO"]), "t_obs": st.sampled_from([1., 4., 5., 10.]), "model": st.sampled_from(["auto", None, "robson19", "huang20"]),
                            "approx": st.booleans()})
HEAVY = st.tuples(coll.row(), logf(5., 1e4), st.one_of(st.just(0.0), st.floats(0.1, 0.8)), st.booleans()).map(lambda t: dict(t[0], f=None, x=t[1], e=t[2], m1=max(t[0]["m1"], 10.), m2=max(t[0]["m2"], 10.), d=min(t[0]["d"], 10.)))


@facet(P, "collection", st.fixed_dictionaries({"rows": coll.members(st.lists(st.one_of(coll.row(), HEAVY, HEAVY), min_size=1, max_size=8)), "set": coll.SETTINGS, "sc": SC, "cut": st.sampled_from([None, 0, 1.0, 7.0, 50., 1e9, "tie"]),
                                               "evolve": st.sampled_from([None, None, 1., 6., 50.]), "snr": st.sampled_from([True, True, True, True, False]), "y": st.sampled_from([None, "h_c"]), "target": st.sampled_from(["new", "both"]),
                                               "label": st.sampled_from([None, "mine"]), "style": USER_STYLE, "show": st.booleans(), "again": st.booleans()}), 160, 3000,
       "collections on their own sensitivity curve: only stationary, inspiralling members above the cut-off, at their loudest harmonic, the right height and size; counts of the others announced; "
       "non-trivial: some but not all members drawn", data=("harmonics",), shards=3, thorough_shards=4)
def collection(case, rec):
    sc = case["sc"]
    params = {"instrument": sc["instrument"], "t_obs": sc["t_obs"] * u.yr, "approximate_R": sc["approx"]}
    if sc["model"] != "auto":
        params["confusion_noise"] = sc["model"]
    s = coll.make(case["rows"], case["set"], sc_params=params)
    with quiet():
        if case["snr"]:
            s.get_snr()
        if case["evolve"]:
            s.evolve_sources(case["evolve"] * u.yr)
    kw = {}
    if case["cut"] == "tie":
        case = dict(case, cut=float(np.sort(s.snr)[s.n_sources // 2]) if case["snr"] else 3.0)
        rec.label("a member exactly at the cut-off")
    if case["cut"] is not None:
        kw["snr_cutoff"] = case["cut"]
    if case["label"]:
        kw["label"] = case["label"]
    if case["y"]:
        kw["sc_vis_settings"] = {"y_quantity": case["y"]}
    cut = case["cut"] or 0
    m1, m2, f, e = s.m_1.to(u.Msun).value, s.m_2.to(u.Msun).value, s.f_orb.to(u.Hz).value, np.asarray(s.ecc, float)
    merged = np.asarray(s.merged)
    snap = snapshot(s)
    with stage(case["style"]) as (shown, said):
        tkw, pair = target(case["target"], rec)
        n = len(plt.get_fignums())
        out = s.plot_sources_on_sc(show=case["show"], **tkw, **kw)
        expect(s, snap, "plotting changed the collection")
        if not case["snr"]:
            check(out == (None, None) and [x[0] for x in said] == ["ERROR"], "without signal-to-noise ratios an error should be reported", got=(out, said))
            return
        with np.errstate(all="ignore"):
            mar = coll.stationary_margin(m1, m2, f, e, sc["t_obs"] * ref.YR, case["set"]["stat_tol"])
        snr = np.asarray(s.snr)
        live = ~merged & (snr > cut)
        if ((np.abs(mar - 1) < 1e-6) & live).any() or (live & ((mar > 1) != ~(mar <= 1))).any():
            return
        st_ = live & (mar <= 1)
        circ = e <= float(s.ecc_tol)
        if (np.abs(e / float(s.ecc_tol) - 1) < 1e-9).any():
            circ = e <= s.ecc_tol
        counts = [int((live & ~st_ & circ).sum()), int((live & ~st_ & ~circ).sum())]
        want = [("circular and evolving", counts[0])] * (counts[0] > 0) + [("eccentric and evolving", counts[1])] * (counts[1] > 0)
        rec.nontrivial(bool(st_.any() and not st_.all()))
        rec.label(sc["instrument"], *(["merged members"] if merged.any() else []), *(["evolving members"] if want else []), *(["below the cut-off"] if (~merged & (snr <= cut)).any() else []))
        check([x[0] for x in said] == ["WARNING"] * len(want), "messages about members that are not drawn", got=said, want=want)
        for (lv, text), (word, k) in zip(said, want):
            check(text.startswith("{} {}".format(k, word)), "count of members that are not drawn", got=text, want=(k, word))
        if not st_.any():
            check(len(plt.get_fignums()) == n and not shown, "a figure was created or shown without anything to draw")
            check(out == ((None, None) if pair is None else pair), "returned figure", got=out)
            if pair is not None:
                check(not pair[1].has_data(), "something was drawn")
            return
        fig, ax = check_target(out, tkw, pair, n)
        check(len(shown) == case["show"], "plt.show", got=len(shown))
        check(len(ax.lines) == (pair is None) and len(ax.collections) == 1 + (pair is None), "number of curves and sets of points", got=(len(ax.lines), len(ax.collections)))
        c = ax.collections[-1]
        off = np.ma.getdata(c.get_offsets()).astype(float)
        check(len(off) == st_.sum(), "number of points", got=len(off), want=int(st_.sum()))
        fd = f[st_] * np.asarray(s.max_snr_harmonic)[st_]
        un = 1.0 if pair is None else (1 * u.Hz).to(s.f_orb.unit).value
        close(off[:, 0], fd * un, 1e-9, what="dominant frequencies")
        with np.errstate(all="ignore"):
            S = ref.psd(fd, sc["instrument"], sc["t_obs"], None, sc["approx"], sc["model"], overlay_dir())
            h = snr[st_] * np.sqrt(S * (fd if case["y"] == "h_c" else 1.0))
        fin = np.isfinite(h) & ~np.array([near_edge(z) for z in fd])
        if case["y"] and pair is not None:
            fin &= s.f_orb.unit == u.Hz
        close(off[fin, 1], h[fin], 1e-6, what="heights of the points")
        if pair is None and case["y"] is None and case["set"]["sc"] is False:
            # circular stationary members: height over the curve drawn on the figure is the SNR
            fl = np.logspace(-5, 0, 1000)
            xy = np.ma.getdata(ax.lines[0].get_xydata()).astype(float)
            close(xy[:, 0], fl, 1e-9, what="frequencies of the curve")
            with np.errstate(all="ignore"):
                cv = np.sqrt(ref.psd(fl, sc["instrument"], sc["t_obs"], None, sc["approx"], sc["model"], overlay_dir()))
            ok = np.isfinite(cv) & ~np.array([near_edge(z) for z in fl])
            close(xy[ok, 1], cv[ok], 1e-6, what="curve under the sources")
        w = None if s.weights is None else np.asarray(s.weights)[st_]
        sizes = c.get_sizes()
        close(np.broadcast_to(sizes, (st_.sum(),)) if len(sizes) == 1 else sizes, 20 * (np.ones(st_.sum()) if w is None else w), 1e-12, what="sizes of the points")
        check(c.get_label() == (case["label"] or "Stationary sources"), "label", got=c.get_label())
