#!/usr/bin/env python3
"""Put DESIGN.md together from design_text.py, the registered facets and the planted bugs"""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from design_text import HEAD, PROP, TAIL  # noqa: E402
from run_check import HYP, PY  # noqa: E402
from vf import overlay  # noqa: E402

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]


def facets(p):
    """name, quick, thorough and rule of every facet"""
    code = ("import os, sys, warnings; warnings.simplefilter('ignore'); sys.path[:0] = [os.environ['VF_OVERLAY'], {!r}]; sys.path.append({!r}); import json, importlib; "
            "importlib.import_module('vf.checks.{}'); from vf import core; "
            "print(json.dumps([[f.name, f.quick, f.thorough, f.rule] for f in core.FACETS['{}']]))").format(HERE, HYP, p.lower(), p)
    root = overlay.build()
    env = dict(os.environ, VF_OVERLAY=root, MPLBACKEND="Agg", NUMBA_DISABLE_JIT="1", MPLCONFIGDIR=root, HOME=root, PYTHONDONTWRITEBYTECODE="1")
    try:
        out = subprocess.run([PY, "-c", code], env=env, stdout=subprocess.PIPE, check=True).stdout
    finally:
        overlay.remove(root)
    return ["`{}` ({}/{}): {}".format(*f) for f in json.loads(out.decode().strip().split("\n")[-1])]


text = HEAD
for p in props:
    oracle, bounds = PROP[p["id"]]
    text += "\n### {} {}\n\n*Oracle.* {}\n\n*Bounds.* {}\n\n".format(p["id"], p["title"], oracle, bounds)
    for line in facets(p["id"]):
        text += "* {}\n".format(line)
text += TAIL
path = os.path.join(HERE, "planted.json")
planted = json.load(open(path)) if os.path.exists(path) else {}
text += "\n| planted bug | what it needs | caught by | first missed |\n|---|---|---|---|\n"
root = os.path.join(HERE, "seeded")
for name in sorted(os.listdir(root)):
    meta = json.load(open(os.path.join(root, name, "meta.json")))
    r = planted.get(name, {})
    text += "| {} | {} | {} | {} |\n".format(name, meta["needs"].replace("|", "/"), ", ".join(r.get("caught", [])) or "?", ", ".join(r.get("missed_first", [])))
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
print(len(text), "characters")
