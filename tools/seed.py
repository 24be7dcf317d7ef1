#!/usr/bin/env python3
"""Make and try planted bugs.

seed.py make FILE.py [ID...]   make /verif/seeded/<id>/ from the BUGS list in FILE.py
seed.py try [ID...]            run the property's check against each planted bug
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", json.load(open("/opt/vp/BASELINE.json")).get("stable", [])))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


def copy(tag):
    d = "/tmp/seedwork_" + tag
    shutil.rmtree(d, ignore_errors=True)
    sh("git clone -q /repo %s" % d)
    return d


def tests(d):
    out = "/tmp/seedwork_out_" + os.path.basename(d)
    r = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s:/opt/vp/plugins %s -m pytest -q -p no:cacheprovider "
           "-p vp_seed --timeout=300 --continue-on-collection-errors --doctest-modules --ignore=concept_formation/examples "
           "--ignore=concept_formation/visualization_files -x --maxfail=30 concept_formation | tail -8" % (d, PY), cwd=d)
    m = re.search(r"(\d+) failed", r.stdout)
    p = re.search(r"(\d+) passed", r.stdout)
    return (int(p.group(1)) if p else 0, int(m.group(1)) if m else 0, r.stdout)


DEMO_SH = """#!/bin/bash
# cwd is the repository
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
here=$(cd "$(dirname "$0")" && pwd)
exec %s "$here/demo.py"
""" % PY
HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
"""


def make(b):
    d = copy(b["id"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, "concept_formation", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return "%s: %d matches in %s" % (b["id"], s.count(old), f)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run("git diff", shell=True, cwd=d, stdout=subprocess.PIPE).stdout
        p, f, text = tests(d)
        if (p, f) != (83, 5):
            return "%s: tests %d passed %d failed\n%s" % (b["id"], p, f, text[-700:])
        t = os.path.join("/tmp", "seedwork_demo_" + b["id"])
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        open(os.path.join(t, "demo.py"), "w").write(HEAD + b["demo"])
        open(os.path.join(t, "demo.sh"), "w").write(DEMO_SH)
        good = sh("bash %s/demo.sh" % t, cwd="/repo", timeout=300)
        bad = sh("bash %s/demo.sh" % t, cwd=d, timeout=300)
        if good.returncode != 0 or bad.returncode == 0:
            return "%s: demo good=%d bad=%d\n%s" % (b["id"], good.returncode, bad.returncode, (good.stdout + bad.stdout)[-700:])
        o = os.path.join(SEEDED, b["id"])
        shutil.rmtree(o, ignore_errors=True)
        shutil.copytree(t, o)
        open(os.path.join(o, "patch.diff"), "wb").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(o, "meta.json"), "w"), indent=1)
        shutil.rmtree(t)
        return "%s: made" % b["id"]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(i, seeds=(1,)):
    d = copy("try_" + i)
    try:
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        r = sh("git apply %s" % os.path.join(SEEDED, i, "patch.diff"), cwd=d)
        if r.returncode:
            return "%s: patch does not apply %s" % (i, r.stdout)
        res = []
        for s in seeds:
            r = sh("%s %s/harness/run.py %s --seed %d" % (PY, V, meta["property"], s),
                   env={"VERIF_REPO": d, "VERIF_EVIDENCE": "/tmp/seedwork_ev", "VERIF_CORES": "4"})
            last = r.stdout.strip().splitlines()[-1:] or [""]
            clause = [ln for ln in r.stdout.splitlines() if ln.startswith("clause")][:2]
            res.append("%s rc=%d %s" % ("CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED", r.returncode,
                                        "; ".join(clause) if clause else last[0]))
        return "%s [%s]: %s" % (i, meta["property"], " | ".join(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs(SEEDED, exist_ok=True)
    if sys.argv[1] == "make":
        g = {}
        exec(open(sys.argv[2]).read(), g)
        bugs = [b for b in g["BUGS"] if not sys.argv[3:] or b["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, bugs):
                print(r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(attempt, ids):
                print(r, flush=True)
