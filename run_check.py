#!/opt/venv/bin/python
"""Run the check of one property:  run_check.py C01 [--tier quick|thorough] [--seed N] [--facet NAME]

Replays a saved failure without the property-based-testing library:  run_check.py --replay FILE
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
sys.path.insert(0, HERE)

ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent"}


def child_env(overlay, jit):
    env = dict(os.environ)
    env.pop("PYTHONPATH", None)
    env.update(ENV)
    env["VF_OVERLAY"] = overlay
    env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    env["MPLCONFIGDIR"] = os.path.join(overlay, "mpl")
    env["XDG_CACHE_HOME"] = env["XDG_CONFIG_HOME"] = os.path.join(overlay, "cache")
    env["HOME"] = overlay
    for d in ("mpl", "cache"):
        os.makedirs(os.path.join(overlay, d), exist_ok=True)
    return env


def load_facets(prop):
    """names and needs of the facets, read in a child so that the parent never imports LEGWORK"""
    import importlib
    mod = importlib.import_module("vf.checks." + prop.lower())
    from vf import core
    return mod, core.FACETS[prop]


# --- inside the worker -------------------------------------------------------------------------------
def worker_setup():
    overlay = os.environ["VF_OVERLAY"]
    sys.path.insert(0, overlay)
    sys.path.append(HYP)
    import legwork
    if not os.path.abspath(legwork.__file__).startswith(overlay):
        raise SystemExit("legwork was not imported from the overlay: " + legwork.__file__)
    import logging
    legwork.logger.setLevel(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


def worker(args):
    worker_setup()
    mod, facets = load_facets(args.prop)
    from vf import core
    if args.list:
        out = [{"name": f.name, "jit": f.jit, "data": list(f.data), "exclude": list(f.exclude), "shards": f.shards,
                "thorough_shards": f.thorough_shards} for f in facets]
        meta = {"facets": out, "known": [k for k in getattr(mod, "KNOWN", [])]}
    elif args.replay_in:
        rep = json.load(open(args.replay_in))
        f = [x for x in facets if x.name == rep["facet"]][0]
        msg = None
        for case in (rep["history"] if args.with_history else [rep["case"]]):
            msg = core.run_case(f, case, core.Rec())
            if msg is not None:
                break
        meta = {"msg": msg}
    else:
        f = [x for x in facets if x.name == args.facet][0]
        meta = core.run_facet(f, args.seed, args.tier, args.shard, args.n_shards)
    with open(args.out, "w") as fh:
        json.dump(meta, fh)


# --- parent ------------------------------------------------------------------------------------------
def spawn(overlay, prop, extra, jit, log):
    out = tempfile.mktemp(prefix="out_", dir=overlay)
    cmd = [PY, os.path.join(HERE, "run_check.py"), "--worker", prop, "--out", out] + extra
    p = subprocess.Popen(cmd, env=child_env(overlay, jit), cwd=overlay, stdin=subprocess.DEVNULL,
                         stdout=open(log, "w"), stderr=subprocess.STDOUT, start_new_session=True)
    return p, out


def finish(p, out, log, what):
    if p.returncode != 0 or not os.path.exists(out):
        raise HarnessFailure("{} failed (exit {}):\n{}".format(what, p.returncode, open(log).read()[-4000:]))
    return json.load(open(out))


class HarnessFailure(Exception):
    pass


def run_jobs(jobs, overlay, limit, n_par=8):
    """jobs: list of dict(prop, extra, jit, what). Runs them n_par at a time"""
    pending, running, done = list(enumerate(jobs)), [], {}
    t0 = time.time()
    try:
        while pending or running:
            while pending and len(running) < n_par:
                i, j = pending.pop(0)
                log = os.path.join(overlay, "log_{}_{}.txt".format(os.getpid(), len(done) * 1000 + i))
                p, out = spawn(j.get("overlay") or overlay, j["prop"], j["extra"], j["jit"], log)
                running.append((i, j, p, out, log))
            for r in list(running):
                i, j, p, out, log = r
                if p.poll() is not None:
                    running.remove(r)
                    done[i] = finish(p, out, log, j["what"])
            if time.time() - t0 > limit:
                raise HarnessFailure("time limit of {} s reached: inconclusive".format(limit))
            time.sleep(0.02)
    finally:
        for i, j, p, out, log in running:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
    return [done[i] for i in range(len(jobs))]


def known_lines(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                fields = dict(x.split("=", 1) for x in line[8:].split("|")[0].split() if "=" in x)
                if fields.get("property") == prop:
                    out.append({"key": fields["key"], "text": line.split("|", 1)[1].strip()})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--facet")
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay-in")
    ap.add_argument("--with-history", action="store_true")
    ap.add_argument("--out")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--n-shards", type=int, default=1)
    args = ap.parse_args()
    if args.worker:
        return worker(args)
    from vf import overlay as ov

    if args.replay:
        rep = json.load(open(args.replay))
        root = ov.build(need=rep.get("data", []), exclude=rep.get("exclude", []))
        try:
            jobs = [dict(prop=rep["property"], jit=rep.get("jit", False), what="replay",
                         extra=["--replay-in", os.path.abspath(args.replay)]
                         + (["--with-history"] if rep.get("needs_history") else []))]
            msg = run_jobs(jobs, root, 800)[0]["msg"]
        finally:
            ov.remove(root)
        print("replay of {} / {}: {}".format(rep["property"], rep["facet"], msg or "holds"))
        return 1 if msg else 0

    prop, tier = args.prop.upper(), args.tier
    t0 = time.time()
    limit = 840 if tier == "quick" else 6 * 3600
    root = ov.build()
    roots = {(): root}
    try:
        meta = run_jobs([dict(prop=prop, extra=["--list"], jit=False, what="list")], root, 120)[0]
        facets = [f for f in meta["facets"] if args.facet in (None, f["name"])]
        need = sorted({d for f in facets for d in f["data"]})
        ov.add_data(root, need)
        jobs = []
        for f in facets:
            ex = tuple(f["exclude"])
            if ex not in roots:
                roots[ex] = ov.build(f["data"], ex)
            n = f["shards"] if tier == "quick" else f["thorough_shards"]
            for s in range(n):
                jobs.append(dict(prop=prop, jit=f["jit"], what="{}/{}".format(prop, f["name"]), facet=f, overlay=roots[ex],
                                 extra=["--facet", f["name"], "--tier", tier, "--seed", str(args.seed),
                                        "--shard", str(s), "--n-shards", str(n)]))
        results = run_jobs(jobs, root, limit)
        violations = []
        known = {k["key"]: k for k in known_lines(prop)}
        seen_known = set()
        for j, r in zip(jobs, results):
            if "failed" not in r:
                continue
            bad = r["failed"]
            key = next((k for k in known if "[known:{}]".format(k) in bad["msg"]), None)
            if key is not None:
                seen_known.add(key)
                continue
            rep = {"property": prop, "facet": r["facet"], "case": bad["case"], "msg": bad["msg"],
                   "seed": args.seed, "tier": tier, "data": j["facet"]["data"], "jit": j["facet"]["jit"],
                   "exclude": j["facet"]["exclude"],
                   "how": "/verif/run_check.py --replay <this file>"}
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "{}_{}_s{}.json".format(prop, r["facet"], r["shard"]))
            json.dump(rep, open(path, "w"), indent=1)
            again = run_jobs([dict(prop=prop, jit=rep["jit"], what="replay", overlay=j["overlay"],
                                  extra=["--replay-in", path])], root, 600)
            if again[0]["msg"] is None:
                # only fails after other calls in the same process: keep the whole history as the reproduction
                rep["history"] = bad["history"]
                rep["needs_history"] = True
                json.dump(rep, open(path, "w"), indent=1)
                again = run_jobs([dict(prop=prop, jit=rep["jit"], what="replay", overlay=j["overlay"],
                                       extra=["--replay-in", path, "--with-history"])], root, 800)
                if again[0]["msg"] is None:
                    raise HarnessFailure("failure of {} did not reproduce: {} {}".format(
                        j["what"], bad["msg"], bad.get("flaky")))
            violations.append((r["facet"], again[0]["msg"], path))
        ev = evidence(prop, tier, args.seed, results, violations, time.time() - t0, need)
        if not args.no_evidence and args.facet is None:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        for r in results:
            print("  {:22s} {:6d} cases {:6d} non-trivial {:7.1f} s{}".format(
                r["facet"], r["evaluations"], r["distinct_nontrivial"], r["wall_s"],
                "  FAILED" if "failed" in r else ""))
        for k in sorted(seen_known):
            print("KNOWN-FINDING: property={} {}".format(prop, known[k]["text"]))
        for name, msg, path in violations:
            print("  {}: {}".format(name, msg))
            print("VIOLATION property={} replay={}".format(prop, path))
        print("{} {} seed={} {:.1f} s".format(prop, "violated" if violations else "held", args.seed, time.time() - t0))
        return 1 if violations else 0
    except HarnessFailure as e:
        print("HARNESS ERROR: {}".format(e), file=sys.stderr)
        return 3
    finally:
        for r in roots.values():
            ov.remove(r)


def evidence(prop, tier, seed, results, violations, wall, data):
    per, rules, samples = {}, {}, []
    for r in results:
        d = per.setdefault(r["facet"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += r["distinct_nontrivial"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        rules[r["facet"]] = r["rule"]
        if r["shard"] == 0:
            samples += [{"facet": r["facet"], "case": s} for s in r["samples"][:2]]
    return {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {"evaluations": sum(d["evaluations"] for d in per.values()),
                         "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in per.values()),
                         "rule": "; ".join("{}: {}".format(k, v) for k, v in rules.items()),
                         "samples": samples[:16], "facets": per},
            "assumptions": ["harmonics.npz and peters_g.npy are absent from the repository and are replaced by "
                            "surrogates computed from the framework's reference g(n, e)"]
            if data else [],
            "wall_s": round(wall, 2), "violations": len(violations)}


if __name__ == "__main__":
    sys.exit(main())
