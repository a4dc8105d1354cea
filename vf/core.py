"""Property-based testing core: facets, recording, shrinking, replay files.

A *facet* is one executable check of one property: a Hypothesis strategy producing a JSON-serialisable
case, and a function ``run(case, rec)`` that drives LEGWORK with that case and judges the outcome against
an oracle.  ``run`` raises :class:`Violation` (through :func:`check`) when the property is broken.
Nothing in a case depends on Hypothesis, so a failing case replays without it (``run_check.py --replay``).
"""
import json
import hashlib
import os
import signal
import sys
import time
import traceback
import warnings

FACETS = {}          # property id -> list of Facet


class Violation(AssertionError):
    """The property does not hold for this case"""


class HarnessError(Exception):
    """The harness itself misbehaved (never reported as a violation)"""


class HarnessTimeout(BaseException):
    pass


def check(cond, msg, **info):
    if not cond:
        if info:
            msg += " | " + ", ".join("{}={}".format(k, _short(v)) for k, v in info.items())
        raise Violation(msg)


def _short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


class Rec:
    """Per-case recorder: labels classify the case; nontrivial() marks it as exercising the property"""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Facet:
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule, jit=False, data=(), shards=1,
                 thorough_shards=None, fixed=(), max_case_s=240, exclude=()):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule, self.jit = quick, thorough, rule, jit
        self.data, self.shards, self.exclude = data, shards, exclude
        self.thorough_shards = thorough_shards or max(shards, 1)
        self.fixed = list(fixed)
        self.max_case_s = max_case_s


def facet(prop, name, strategy, quick, thorough, rule, **kw):
    def deco(fn):
        FACETS.setdefault(prop, []).append(Facet(prop, name, strategy, fn, quick, thorough, rule, **kw))
        return fn
    return deco


def canon(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


def overlay_dir():
    return os.environ.get("VF_OVERLAY", "")


def legwork_in_traceback(exc):
    ov = overlay_dir()
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if (ov and fn.startswith(os.path.join(ov, "legwork"))) or "/repo/src/legwork/" in fn:
            return True
        tb = tb.tb_next
    return False


def run_case(fct, case, rec):
    """Run one case; returns None if it held, else the violation message"""
    def on_alarm(sig, frame):
        raise HarnessTimeout("case took longer than {} s".format(fct.max_case_s))
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(fct.max_case_s)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fct.fn(json.loads(canon(case)), rec)
        return None
    except Violation as e:
        return str(e) or "violation"
    except HarnessTimeout:
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if legwork_in_traceback(e):
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "legwork" in f.filename]
            where = "{}:{}".format(os.path.basename(where[-1].filename), where[-1].name) if where else "?"
            return "unexpected {} raised by LEGWORK on valid use ({}): {}".format(type(e).__name__, where, e)
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError)):
            # the oracle could not even interpret what LEGWORK returned (wrong shape, None, missing attribute...)
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return "the result could not be interpreted ({} at {}:{}): {}".format(
                type(e).__name__, os.path.basename(tb.filename), tb.lineno, e)
        raise HarnessError("".join(traceback.format_exception(e)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_facet(fct, seed, tier, shard=0, n_shards=1):
    """Search for a violating case. Returns a result dict"""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 45

    total = fct.quick if tier == "quick" else fct.thorough
    n = max(1, -(-total // n_shards))
    stats = {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": []}
    seen = set()
    order = []                      # every case run up to the first failure, for history-dependent failures
    state = {"failed": None, "msg": None, "first": None}
    t0 = time.time()

    def one(case):
        rec = Rec()
        key = canon(case)
        if state["first"] is None:
            order.append(key)
        msg = run_case(fct, case, rec)
        if state["first"] is None:
            stats["evaluations"] += 1
            h = hashlib.sha1(key.encode()).digest()
            for lab in rec.labels:
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
            if rec.is_nontrivial and h not in seen:
                seen.add(h)
                stats["distinct_nontrivial"] += 1
                if len(stats["samples"]) < 2 or (stats["evaluations"] % max(1, n // 3) == 0
                                                 and len(stats["samples"]) < 4):
                    stats["samples"].append(case)
        if msg is not None:
            if state["first"] is None:
                state["first"] = list(order)
            state["failed"], state["msg"] = case, msg
            raise Violation(msg)

    # hand written boundary cases go first (only on the first shard)
    if shard == 0:
        for case in fct.fixed:
            try:
                one(case)
            except Violation:
                return _result(fct, stats, state, t0, seed, shard)

    if fct.strategy is not None:
        test = hypothesis.given(fct.strategy)(lambda case: one(case))
        test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=[Phase.generate, Phase.shrink])(test)
        h = int(hashlib.sha1("{}/{}/{}/{}".format(fct.prop, fct.name, seed, shard).encode()).hexdigest()[:12], 16)
        test = hypothesis.seed(h)(test)
        try:
            test()
        except Violation:
            pass
        except BaseException as e:
            if state["failed"] is None:
                raise
            # Flaky: the failure did not repeat inside this process; the parent re-runs it from the replay file
            state["flaky"] = "{}: {}".format(type(e).__name__, e)[:500]
    return _result(fct, stats, state, t0, seed, shard)


def _result(fct, stats, state, t0, seed, shard):
    res = {"facet": fct.name, "rule": fct.rule, "wall_s": time.time() - t0, "seed": seed, "shard": shard, **stats}
    if state["failed"] is not None:
        res["failed"] = {"case": state["failed"], "msg": state["msg"], "flaky": state.get("flaky"),
                         "history": [json.loads(k) for k in state["first"]]}
    return res
