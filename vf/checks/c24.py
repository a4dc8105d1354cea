"""C24 logging"""
import importlib.util
import io
import json
import logging
import os
import pty
import re
import subprocess
import sys

import numpy as np
import astropy.units as u
from hypothesis import strategies as st

from ..core import facet, check, overlay_dir
import legwork
from .. import coll
from ..gen import same
from legwork import _logging, source, evol, visualisation

P = "C24"
LEVELS = {"debug": 10, "info": 20, "notice": 25, "warning": 30, "error": 40, "critical": 50}
TEXT = st.one_of(st.text(st.characters(codec="utf-8", exclude_characters="%\r"), max_size=20), st.sampled_from(["", "plain", "two\nlines", "\033[31mred", "LEGWORK info: x", "é ∑ \U0001f300", "100", "a: b"]))
LEVEL = st.sampled_from(sorted(LEVELS))
ARGS = st.one_of(st.none(), st.tuples(st.just("pos"), TEXT, st.integers(-5, 10**6)), st.tuples(st.just("dict"), TEXT, st.integers(-5, 10**6)),
                 st.tuples(st.just("percent"), st.integers(0, 100), st.just(0)))
STREAM = st.sampled_from(["plain", "tty", "none", "bare"])


class Tty(io.StringIO):
    def isatty(self):
        return True


class Bare:
    """a minimal stream without isatty"""

    def __init__(self):
        self.parts = []

    def write(self, x):
        self.parts.append(x)

    def flush(self):
        pass

    def getvalue(self):
        return "".join(self.parts)


def stream(kind):
    return {"plain": io.StringIO, "tty": Tty, "none": lambda: None, "bare": Bare}[kind]()


def message(text, args):
    """msg and args as given to logging, and the text they stand for"""
    if args is None:
        return text, (), text
    kind, a, b = args
    if kind == "pos":
        return text + "%s and %d", (a, b), "{}{} and {}".format(text, a, b)
    if kind == "dict":
        return text + "%(n)05d %(who)r", ({"who": a, "n": b},), "{}{:05d} {!r}".format(text, b, a)
    return text + "%d%%", (a,), "{}{}%".format(text, a)


def prefix(level, name, tty):
    head = "LEGWORK " + name.lower()
    if not tty:
        return head + ": "
    colour = {30: "\033[33m", 40: "\033[31m", 50: "\033[31m"}.get(level, "")
    return "\033[1m" + colour + head + "\033[0m: "


@facet(P, "format", st.fixed_dictionaries({"streams": st.lists(STREAM, min_size=1, max_size=3), "level": LEVEL, "text": TEXT, "args": ARGS, "exc": st.booleans(),
                                           "stdout": st.sampled_from(["plain", "tty", "none"]), "stderr": st.sampled_from(["plain", "tty"])}), 600, 20000,
       "the formatter on random records (levels, arguments, exceptions), one record through several formatters, whatever standard output and standard error are; non-trivial: arguments, an exception or a terminal")
def fmt(case, rec):
    logging.addLevelName(25, "NOTICE")
    lv = LEVELS[case["level"]]
    msg, args, text = message(case["text"], case["args"])
    exc = None
    if case["exc"]:
        try:
            raise RuntimeError("boom")
        except RuntimeError:
            exc = sys.exc_info()
    r = logging.LogRecord("LEGWORK", lv, "here.py", 3, msg, args, exc)
    rec.label(*case["streams"])
    rec.nontrivial(bool(case["args"]) or case["exc"] or "tty" in case["streams"])

    def formatted(kind):
        std = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = stream(case.get("stdout", "plain")), stream(case.get("stderr", "plain"))
        try:
            f = _logging.LegworkFormatter(stream=stream(kind)) if kind else _logging.LegworkFormatter()
            return f.format(r)
        finally:
            sys.stdout, sys.stderr = std
    for kind in case["streams"]:
        got = formatted(kind)
        want = prefix(lv, logging.getLevelName(lv), kind == "tty") + text
        if exc is None:
            check(got == want, "formatted record", got=got, want=want)
        else:
            check(got.startswith(want + ("" if want.endswith("\n") else "\n") + "Traceback") and got.endswith("RuntimeError: boom"), "formatted exception", got=got)
    check(formatted(None).startswith(prefix(lv, logging.getLevelName(lv), False)), "formatter without a stream")


class Fresh:
    """The logging module of LEGWORK imported into a clean logging state with its own stdout"""

    def __init__(self, kind, mine, root_level):
        self.logger = logging.getLogger("LEGWORK")
        self.root = logging.getLogger()
        self.other = logging.getLogger("somebody.else")
        self.old = [(lg, list(lg.handlers), lg.level, lg.propagate, lg.disabled) for lg in (self.logger, self.root, self.other)]
        for lg in (self.logger, self.root, self.other):
            lg.handlers[:] = []
            lg.propagate = True
        self.logger.setLevel(logging.NOTSET)
        self.out, self.rootbuf, self.otherbuf, self.minebuf = stream(kind), io.StringIO(), io.StringIO(), io.StringIO()
        self.rh, self.oh = logging.StreamHandler(self.rootbuf), logging.StreamHandler(self.otherbuf)
        self.root.addHandler(self.rh)
        self.root.setLevel(root_level)
        self.other.addHandler(self.oh)
        self.mh = None
        if mine:
            self.mh = logging.StreamHandler(self.minebuf)
            self.logger.addHandler(self.mh)
            self.logger.setLevel(mine)

    def load(self):
        stdout, sys.stdout = sys.stdout, self.out
        try:
            spec = importlib.util.spec_from_file_location("legwork_logging_again", os.path.join(overlay_dir(), "legwork", "_logging.py"))
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
        finally:
            sys.stdout = stdout
        return mod

    def restore(self):
        for lg, handlers, level, prop, dis in self.old:
            lg.handlers[:] = handlers
            lg.setLevel(level)
            lg.propagate, lg.disabled = prop, dis


OP = st.one_of(st.tuples(st.just("log"), st.tuples(LEVEL, TEXT, ARGS)), st.tuples(st.just("log"), st.tuples(LEVEL, TEXT, ARGS)),
               st.tuples(st.just("level"), st.sampled_from(sorted(LEVELS))), st.tuples(st.just("import"), st.sampled_from(["plain", "tty"])),
               st.tuples(st.just("other"), TEXT), st.tuples(st.just("root"), TEXT), st.tuples(st.just("child"), TEXT), st.tuples(st.just("exception"), TEXT))


@facet(P, "history", st.fixed_dictionaries({"stream": st.sampled_from(["plain", "tty", "bare"]), "mine": st.sampled_from([None, None, 10, 30, 50]), "root": st.sampled_from([10, 30]),
                                            "ops": st.lists(OP, min_size=1, max_size=12)}), 500, 20000,
       "the package's logging set up in random logging environments (terminal or not, handlers of the user and of the root logger already there), then random "
       "messages, level changes, repeated imports and messages of other loggers; non-trivial: a message after a repeated import or level change")
def history(case, rec):
    logging.addLevelName(25, "NOTICE")
    w = Fresh(case["stream"], case["mine"], case["root"])
    mine = case["mine"]
    try:
        mod = w.load()
        lg = mod.logger
        check(lg is w.logger, "the logger is not called LEGWORK", got=lg)
        want, want_root, want_other, want_mine = "", "", "", ""
        tty, level, changed = case["stream"] == "tty", mine or 20, False
        rec.label(case["stream"], "user handler" if mine else "own handler")
        for step, (name, arg) in enumerate(case["ops"]):
            what = "step {} ({})".format(step, name)
            if name == "import":
                stdout_before = w.out
                w.out = stream(arg)          # standard output may be another one by the time of the next import
                mod = w.load()
                w.out = stdout_before
                check(mod.logger is lg, what + ": another logger")
                changed = True
            elif name == "level":
                lg.setLevel(LEVELS[arg])
                level, changed = LEVELS[arg], True
            elif name == "other":
                w.other.warning("%s", arg)
                want_other += arg + "\n"
                want_root += arg + "\n"
            elif name == "root":
                w.root.error("%s", arg)
                want_root += arg + "\n"
            else:
                lv, text, args = {"log": lambda: (arg[0], arg[1], arg[2]), "child": lambda: ("warning", arg, None), "exception": lambda: ("error", arg, None)}[name]()
                msg, a, text = message(text, args)
                n = LEVELS[lv]
                rec.nontrivial(changed)
                target = logging.getLogger("LEGWORK.part") if name == "child" else lg
                if name == "exception":
                    try:
                        1 / 0
                    except ZeroDivisionError:
                        target.exception(msg, *a)
                else:
                    target.log(n, msg, *a)
                if n >= level:
                    line = prefix(n, logging.getLevelName(n), tty) + text
                    if name == "exception":
                        got = (w.minebuf if mine else w.out).getvalue()
                        base = want_mine if mine else want
                        first = (text if mine else line)
                        first += "" if first.endswith("\n") else "\n"
                        check(got.startswith(base + first + "Traceback") and got.endswith("ZeroDivisionError: division by zero\n"),
                              what + ": exception message", got=got, want=first)
                        if mine:
                            want_mine = got
                            want_root = w.rootbuf.getvalue()
                        else:
                            want = got
                    elif mine:
                        # the user configured this logger: the package keeps out of it
                        want_mine += text + "\n"
                        want_root += text + "\n"
                    else:
                        want += line + "\n"
            check(w.out.getvalue() == want, what + ": standard output", got=w.out.getvalue(), want=want)
            check(w.minebuf.getvalue() == want_mine, what + ": the user's own handler of the logger", got=w.minebuf.getvalue(), want=want_mine)
            check(w.otherbuf.getvalue() == want_other, what + ": another logger", got=w.otherbuf.getvalue(), want=want_other)
            check(w.rootbuf.getvalue() == want_root, what + ": root logger", got=w.rootbuf.getvalue(), want=want_root)
            check(w.root.handlers == [w.rh] and w.other.handlers == [w.oh] and w.root.level == case["root"], what + ": other loggers were touched")
            check(len(lg.handlers) == 1 and (not mine or lg.handlers == [w.mh]), what + ": handlers", got=lg.handlers)
            check(lg.level == level, what + ": level of the logger", got=lg.level, want=level)
    finally:
        w.restore()


# --- real imports, real terminals ----------------------------------------------------------------------
SCRIPT = r'''
import json, logging, sys
case = json.loads(sys.argv[1])
if case["root"]:
    logging.basicConfig(stream=sys.stderr, level=logging.DEBUG, format="ROOT %(name)s %(message)s")
state = [(n, list(l.handlers), l.level) for n, l in logging.root.manager.loggerDict.items() if isinstance(l, logging.Logger)]
nroot = list(logging.root.handlers), logging.root.level
import warnings; warnings.simplefilter("ignore")
import legwork
assert (list(logging.root.handlers), logging.root.level) == nroot, "the root logger was changed"
if case["again"]:
    for k in [k for k in sys.modules if k.split(".")[0] == "legwork"]:
        del sys.modules[k]
    import legwork
assert legwork.logger is logging.getLogger("LEGWORK"), "legwork.logger"
for level, text, setlevel in case["ops"]:
    if setlevel: legwork.logger.setLevel(setlevel)
    legwork.logger.log(level, "%s!", text)
'''


@facet(P, "real_import", st.fixed_dictionaries({
    "tty": st.booleans(), "root": st.booleans(), "again": st.booleans(),
    "ops": st.lists(st.tuples(st.sampled_from([10, 20, 30, 40, 50]), st.text("abc XYZ:", max_size=8), st.sampled_from([None, None, 10, 30, 50])), min_size=1, max_size=6)}),
    6, 60, "the package imported (twice) in a fresh interpreter whose standard output is a pipe or a real pseudo-terminal; non-trivial: every case", shards=4, thorough_shards=6,
    fixed=[{"tty": True, "root": True, "again": True, "ops": [[20, "a", None], [30, "b", None], [10, "c", None], [40, "d", 30], [20, "e", None]]},
           {"tty": False, "root": True, "again": True, "ops": [[20, "a", None], [30, "b", None], [10, "c", None], [40, "d", 30], [20, "e", None]]}])
def real_import(case, rec):
    rec.nontrivial()
    rec.label("terminal" if case["tty"] else "pipe")
    env = dict(os.environ, PYTHONPATH=overlay_dir())
    cmd = [sys.executable, "-c", SCRIPT, json.dumps(case)]
    if case["tty"]:
        master, slave = pty.openpty()
        p = subprocess.Popen(cmd, stdout=slave, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=overlay_dir())
        os.close(slave)
        chunks = []
        while True:
            try:
                b = os.read(master, 65536)
            except OSError:
                break
            if not b:
                break
            chunks.append(b)
        os.close(master)
        err = p.stderr.read()
        p.wait()
        out = b"".join(chunks).replace(b"\r\n", b"\n")
    else:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=overlay_dir())
        out, err = p.communicate()
    check(p.returncode == 0, "the program failed", err=err.decode()[-600:])
    level, want = 20, ""
    for lv, text, new in case["ops"]:
        level = new or level
        if lv >= level:
            want += prefix(lv, logging.getLevelName(lv), case["tty"]) + text + "!\n"
    check(out.decode() == want, "standard output", got=out.decode(), want=want)
    check(b"ROOT LEGWORK" not in err, "messages were shown by the root logger as well", err=err.decode()[-300:])


# --- what the package's own operations say -------------------------------------------------------------
ACTS = ["position", "position_inc", "position_pol", "position_all", "interpolate_g", "plot_no_snr", "plot_evolving", "plot_nothing", "past_merger", "one_past", "too_close", "one_close",
        "merging", "quiet_snr", "save_custom", "load_old"]
ACT = st.sampled_from(ACTS)


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelname, record.getMessage()))


def act(name, n, tmp):
    """perform an operation, returns the levels of the messages it must send, in order (and words in them)"""
    import matplotlib.pyplot as plt
    from astropy.coordinates import SkyCoord
    kw = dict(m_1=np.full(n, 10.) * u.Msun, m_2=np.full(n, 8.) * u.Msun, ecc=np.zeros(n), dist=np.full(n, 8.) * u.kpc, f_orb=np.full(n, 1e-3) * u.Hz,
              interpolate_g=False, interpolate_sc=False)
    pos = SkyCoord(lon=np.linspace(0, 1, n) * u.rad, lat=np.linspace(0, 1, n) * u.rad, frame="barycentrictrueecliptic")
    if name == "position":
        source.Source(position=pos, **kw)
        return [("INFO", "inclination"), ("INFO", "polarisation")]
    if name == "position_inc":
        source.Source(position=pos, inclination=np.ones(n) * u.rad, **kw)
        return [("INFO", "polarisation")]
    if name == "position_pol":
        source.Source(position=pos, polarisation=np.ones(n) * u.rad, **kw)
        return [("INFO", "inclination")]
    if name == "position_all":
        source.Source(position=pos, inclination=np.ones(n) * u.rad, polarisation=np.ones(n) * u.rad, **kw)
        return []
    if name == "plot_no_snr":
        s = source.Source(**kw)
        check(s.plot_sources_on_sc(show=False) == (None, None), "plot without an SNR")
        return [("ERROR", "SNR")]
    if name == "plot_evolving":
        kw["f_orb"] = np.full(n, 1.0) * u.Hz
        kw["m_1"] = np.full(n, 1e3) * u.Msun
        kw["ecc"] = np.array([0.0, 0.5] * n)[:n]
        s = source.Source(**kw)
        s.snr, s.max_snr_harmonic = np.full(n, 10.), np.full(n, 2)
        s.plot_sources_on_sc(show=False)
        plt.close("all")
        nc, ne = n - n // 2, n // 2
        return [("WARNING", "{} circular and evolving".format(nc))] * (nc > 0) + [("WARNING", "{} eccentric and evolving".format(ne))] * (ne > 0)
    if name == "plot_nothing":
        visualisation.plot_sources_on_sc(f_dom=np.full(n, 1e-3) * u.Hz, snr=np.full(n, 2.), snr_cutoff=5., show=False)
        plt.close("all")
        return [("ERROR", "snr_cutoff")]
    if name in ("past_merger", "too_close", "one_past", "one_close", "merging"):
        one = dict(ecc_i=np.full(n, 0.3), m_1=kw["m_1"], m_2=kw["m_2"], f_orb_i=kw["f_orb"])
        tm = evol.get_t_merge_ecc(**one).to(u.yr)[0]
        if name == "past_merger":
            evol.evol_ecc(t_evol=1.5 * tm, n_step=5, t_before=0.1 * tm, **one)
            return [("WARNING", "past the merger")]
        if name == "merging":
            evol.evol_ecc(t_evol=1.5 * tm, n_step=4, avoid_merger=False, **one)
            return []
        if name in ("one_past", "one_close"):
            # the last source merges earlier than all others, by a factor 6.3
            one["f_orb_i"] = np.full(n, 1e-3) * np.where(np.arange(n) == n - 1, 1.0, 0.5) * u.Hz
            if name == "one_past":
                evol.evol_ecc(t_evol=1.5 * tm, n_step=5, t_before=0.1 * tm, **one)
                return [("WARNING", "past the merger")]
            evol.evol_ecc(t_evol=0.5 * tm, n_step=3, t_before=(0.9 if n > 1 else 0.4) * tm, **one)
            return []
        evol.evol_ecc(t_evol=0.5 * tm, n_step=3, t_before=2 * tm, **one)
        return [("WARNING", "too close")]
    s = source.Source(**kw)
    if name == "quiet_snr":
        s.get_snr()
        s.evolve_sources(1 * u.yr)
        s[0].get_snr_stationary()
        s.get_merger_time()
        s.get_h_0_n([1, 2])
        return []
    if name == "interpolate_g":
        s.set_g(False)
        return []
    path = os.path.join(tmp, "file_{}.h5".format(n))
    if name == "save_custom":
        s.sc_params["confusion_noise"] = lambda f, t_obs=None: 0.0 * f.value / u.Hz
        s.save(path, overwrite=True)
        source.Source.from_file(path)
        return [("FILE", "confusion_noise")]
    s.save(path, overwrite=True)
    import h5py
    with h5py.File(path, "a") as fh:
        fh.attrs["legwork_version"] = "0.0.1"
    source.Source.from_file(path)
    return [("FILE", "0.0.1")]


@facet(P, "operations", st.fixed_dictionaries({"acts": st.lists(st.tuples(ACT, st.integers(1, 4)), min_size=1, max_size=8), "level": st.sampled_from([10, 20, 20, 30, 40])}), 60, 1500,
       "the messages that LEGWORK's own operations send: each of the right severity, once, through the logger, never printed directly (warnings about saved files: shown); non-trivial: >= 1 message expected",
       data=("harmonics",), shards=2, thorough_shards=4,
       fixed=[{"acts": [[a, n] for n in (2, 3) for a in ACTS], "level": 20}, {"acts": [[a, 1] for a in reversed(ACTS) for _ in range(2)], "level": 30}])
def operations(case, rec):
    import tempfile
    import contextlib
    lg = legwork.logger
    old_level, old_handlers, h, buf = lg.level, list(lg.handlers), Collect(), io.StringIO()
    lg.handlers[:] = [h]
    lg.setLevel(case["level"])
    try:
        with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(buf):
            for name, n in case["acts"]:
                rec.label(name)
                h.got.clear()
                want = act(name, n, tmp)
                if want and want[0][0] == "FILE":
                    # warnings about files are shown on standard output whatever the level (existing tests rely on it)
                    texts = [x[1] for x in h.got] + [buf.getvalue()]
                    check(any(want[0][1] in t for t in texts), "nothing was said by " + name, got=texts, want=want[0][1])
                    buf.seek(0)
                    buf.truncate()
                    rec.nontrivial()
                    continue
                want = [x for x in want if LEVELS[x[0].lower()] >= case["level"]]
                rec.nontrivial(bool(want))
                check([x[0] for x in h.got] == [x[0] for x in want], "messages of " + name, got=h.got, want=want)
                for (lv, text), (_, word) in zip(h.got, want):
                    check(word in text, "message of " + name, got=text, want=word)
                check(buf.getvalue() == "", name + " printed something without the logger", got=buf.getvalue())
    finally:
        lg.handlers[:] = old_handlers
        lg.setLevel(old_level)


# --- reports about the calculation of signal-to-noise ratios --------------------------------------------
KINDS = {"Source": source.Source, "Stationary": source.Stationary, "Evolving": source.Evolving}


@facet(P, "verbose", st.fixed_dictionaries({"rows": coll.collection(max_size=7, hi=0.8), "set": coll.SETTINGS, "klass": st.sampled_from(["Source", "Source", "Source", "Stationary", "Evolving"]),
                                            "how": st.sampled_from(["get_snr", "get_snr", "get_snr", "stationary", "evolving"]), "evolve": st.sampled_from([None, 1.0, 1e4]),
                                            "pick": st.one_of(st.none(), st.integers(0, 127))}), 60, 1000,
       "signal-to-noise ratios of random collections calculated with and without `verbose`: silent without it, otherwise the numbers of merged, stationary, evolving, circular and eccentric "
       "sources are reported once each and right, and the result is the same; non-trivial: at least two kinds of sources", data=("harmonics",), shards=2, thorough_shards=4)
def verbose(case, rec):
    import contextlib
    buf = io.StringIO()
    lg = legwork.logger
    old = lg.level
    lg.setLevel(60)
    try:
        def fresh():
            s = coll.make(case["rows"], case["set"], KINDS[case["klass"]])
            if case["evolve"]:
                s.evolve_sources(case["evolve"] * u.yr)
            return s
        how = case["how"]
        with contextlib.redirect_stdout(buf):
            s, t = fresh(), fresh()
            n = s.n_sources
            which = None if case["pick"] is None or (how == "get_snr" and case["klass"] != "Source") else np.array([bool(case["pick"] >> i & 1) for i in range(n)])
            kw = {} if which is None else {"which_sources": which}
            step = {} if how == "stationary" or (how == "get_snr" and case["klass"] == "Stationary") else {"n_step": 4}
            fn = {"get_snr": lambda x: x.get_snr, "stationary": lambda x: x.get_snr_stationary, "evolving": lambda x: x.get_snr_evolving}[how]
            a = fn(s)(**kw, **step)
        check(buf.getvalue() == "", "a calculation without `verbose` printed something", got=buf.getvalue())
        with contextlib.redirect_stdout(buf):
            b = fn(t)(verbose=True, **kw, **step)
        same(np.asarray(b), np.asarray(a), "signal-to-noise ratios with `verbose`")
        same(np.asarray(t.max_snr_harmonic), np.asarray(s.max_snr_harmonic), "loudest harmonics with `verbose`")
        m1, m2, f, e = s.m_1.to(u.Msun).value, s.m_2.to(u.Msun).value, s.f_orb.to(u.Hz).value, np.asarray(s.ecc)
        with np.errstate(all="ignore"):
            x = coll.stationary_margin(m1, m2, f, e, 4 * coll.ref.YR, s.stat_tol)
        live = ~np.asarray(s.merged)
        chosen = live & (which if which is not None else True)
        if how == "get_snr" and case["klass"] == "Source":
            if np.any((np.abs(x - 1) < 1e-4) & live):
                return
            stat = x < 1
        else:
            stat = np.full(n, how == "stationary" or (how == "get_snr" and case["klass"] == "Stationary"))
        ecc = e > s.ecc_tol
        want = {"stationary circular": chosen & stat & ~ecc, "stationary eccentric": chosen & stat & ecc,
                "evolving circular": chosen & ~stat & ~ecc, "evolving eccentric": chosen & ~stat & ecc}
        if how == "get_snr" and case["klass"] == "Source":
            want.update({"stationary": chosen & stat, "evolving": chosen & ~stat})
        want = {k: int(v.sum()) for k, v in want.items() if v.any()}
        rec.nontrivial(len([k for k in want if " " in k]) > 1)
        rec.label(case["klass"], how, "merged" if (~live).any() else "none merged")
        got, merged = {}, None
        for line in buf.getvalue().splitlines():
            low = line.lower()
            num = re.findall(r"\d+", low)
            check(len(num) == 1, "a line of the report without one number", got=line)
            if "merged" in low:
                merged = int(num[0])
                continue
            words = [w for w in ("stationary", "evolving", "circular", "eccentric") if w in low]
            key = " ".join(words)
            if not words:
                # the total
                check(int(num[0]) == (n if which is None else int(which.sum())), "total number of sources in the report", got=line, want=n)
                continue
            check(key not in got, "reported twice: " + key, got=buf.getvalue())
            got[key] = int(num[0])
        check(got == want, "numbers of sources in the report", got=got, want=want)
        if how == "get_snr" and case["klass"] == "Source":
            check(merged in (int((~live).sum()), int((~live & (which if which is not None else True)).sum())), "number of merged sources in the report", got=merged, want=int((~live).sum()))
    finally:
        lg.setLevel(old)
