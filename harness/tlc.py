"""Running TLC: exhaustive model checks and sharded trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from env import CLASSES, CORES, SPEC, TLA_JARS, VERIF


EVAL_ERRORS = (75, 76, 77)


class MachineryError(Exception):
    """TLC or the harness failed in a way that says nothing about the code."""


def _javac():
    """Compile the BigInt accelerator if it is missing or out of date."""
    src = os.path.join(VERIF, "java", "BigInt.java")
    out = os.path.join(CLASSES, "BigInt.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="bigint", dir=os.path.dirname(CLASSES))
    subprocess.run(["javac", "-cp", TLA_JARS, "-d", tmp, src], check=True)
    os.replace(os.path.join(tmp, "BigInt.class"), out)
    shutil.rmtree(tmp)


def scratch():
    d = tempfile.mkdtemp(prefix="verif-tlc-")
    return d


def run(module, cfg_text, workers=1, timeout=800, extra_env=None, heap="2g",
        args=(), java=True):
    """Run TLC once.  Returns (exit code, stdout lines, wall seconds)."""
    if java:
        _javac()
    d = scratch()
    try:
        cfg = os.path.join(d, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        env.update(extra_env or {})
        cp = TLA_JARS + (":" + CLASSES if java else "")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + d,
               "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", os.path.join(d, "states"), "-config", cfg]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        for attempt in (1, 2):
            try:
                p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout, text=True)
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on " + module)
            # a Java machine that could not start or was ended says nothing: once more
            if p.returncode in (0, 10, 11, 12, 13) + EVAL_ERRORS:
                break
            shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return p.returncode, p.stdout.splitlines(), time.time() - t0
    finally:
        shutil.rmtree(d, ignore_errors=True)


_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found")


def counts(lines):
    gen = dist = 0
    for ln in lines:
        m = _STATES.match(ln)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
    return gen, dist


def errors(lines):
    keep = [ln for ln in lines if not ln.startswith(("Loading", "Semantic", "Parsing", "Linting"))]
    return "\n".join(keep[-60:])


def cfg(spec="Spec", constants=None, invariants=(), properties=(), post=None, constraint=None,
        view=None, symmetry=None, init=None, nxt=None):
    out = []
    if init:
        out += ["INIT " + init, "NEXT " + nxt]
    else:
        out.append("SPECIFICATION " + spec)
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            out.append("  %s %s" % (k, v if v.startswith("<-") else "= " + v))
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    if post:
        out.append("POSTCONDITION " + post)
    if constraint:
        out.append("CONSTRAINT " + constraint)
    if view:
        out.append("VIEW " + view)
    if symmetry:
        out.append("SYMMETRY " + symmetry)
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n"


def model_check(module, name, cfg_text, workers=CORES, timeout=800, heap="6g"):
    """Exhaustive check of a design.  A failure here is a defect of the
    specification, not of the code, so it is a machinery error."""
    rc, lines, wall = run(module, cfg_text, workers=workers, timeout=timeout, heap=heap)
    if rc != 0:
        raise MachineryError("model check %s failed (rc %d)\n%s" % (name, rc, errors(lines)))
    gen, dist = counts(lines)
    if dist == 0:
        raise MachineryError("model check %s explored nothing" % name)
    return {"model": name, "generated": gen, "distinct": dist, "wall_s": round(wall, 2)}


def generate(module, name, cfg_text, workers=CORES, timeout=800, heap="6g"):
    """Behaviours or values enumerated by a specification (GEN| lines)."""
    rc, lines, wall = run(module, cfg_text, workers=workers, timeout=timeout, heap=heap)
    if rc != 0:
        raise MachineryError("generation %s failed (rc %d)\n%s" % (name, rc, errors(lines)))
    out = []
    for ln in lines:
        ln = ln.strip()
        if ln.startswith('"GEN|'):
            out.append(json.loads(json.loads(ln)[4:]))
    gen, dist = counts(lines)
    if not out:
        raise MachineryError("generation %s produced nothing" % name)
    out.sort(key=lambda x: json.dumps(x, sort_keys=True))       # workers print in any order
    return out, {"model": name, "generated": gen, "distinct": dist, "wall_s": round(wall, 2)}


def _parse(lines):
    """FAIL|<trace>|<step>|<clause> and DONE|<trace>|<steps> lines."""
    fails, done, info = [], {}, {}
    for ln in lines:
        s = ln.strip()
        if s.startswith('"') and s.endswith('"'):
            s = s[1:-1]
        if s.startswith("FAIL|"):
            _, t, l, c = s.split("|", 3)
            fails.append((int(t), int(l), c))
        elif s.startswith("DONE|"):
            _, t, l = s.split("|")
            done[int(t)] = max(done.get(int(t), 0), int(l))
        elif s.startswith("INFO|"):
            _, k, v = s.split("|", 2)
            info[k] = info.get(k, 0) + int(v)
    return fails, done, info


def _one_shard(module, cfg_text, meta, traces, timeout, heap="3g"):
    d = scratch()
    try:
        path = os.path.join(d, "traces.json")
        with open(path, "w") as f:
            json.dump({"meta": meta, "traces": traces}, f)
        return run(module, cfg_text, workers=1, timeout=timeout, heap=heap,
                   extra_env={"TRACES": path})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(module, cfg_text, traces, lengths=None, meta=None, search=False, timeout=800,
             shards=None):
    """Validate recorded traces against a trace specification.

    Every trace must be reported DONE with its full length.  Returns
    (violations, totals); a violation is (trace index, step, clause).  With
    search=True a trace that stops early is rejected (no behaviour of the
    specification explains it); otherwise stopping early is a machinery error.
    """
    if not traces:
        return [], {"generated": 0, "distinct": 0, "traces": 0, "info": {}}
    meta = meta or {}
    lengths = lengths or [len(t["ev"]) for t in traces]
    n = min(shards or CORES, len(traces))
    # balance by size
    order = sorted(range(len(traces)), key=lambda i: -len(json.dumps(traces[i])))
    groups = [order[k::n] for k in range(n)]
    out, tot = [], {"generated": 0, "distinct": 0, "traces": 0, "info": {}}

    def work(group):
        res = []
        rc, lines, _ = _one_shard(module, cfg_text, meta, [traces[i] for i in group], timeout)
        if rc in EVAL_ERRORS and len(group) > 1:
            # some trace does not have the shape the specification can read
            mid = len(group) // 2
            return work(group[:mid]) + work(group[mid:])
        return [(group, rc, lines)]

    with ThreadPoolExecutor(n) as ex:
        results = [r for rs in ex.map(work, groups) for r in rs]
    for group, rc, lines in results:
        fails, done, info = _parse(lines)
        if rc in EVAL_ERRORS:
            out.append((group[0], max(done.values(), default=0),
                        "the recorded execution has no meaning in the specification"))
            tot["detail"] = errors(lines)
            tot["traces"] += 1
            continue
        if rc != 0:
            raise MachineryError("trace validation %s failed (rc %d)\n%s" % (module, rc, errors(lines)))
        gen, dist = counts(lines)
        tot["generated"] += gen
        tot["distinct"] += dist
        for k, v in info.items():
            tot["info"][k] = tot["info"].get(k, 0) + v
        bad = set()
        for t, l, c in fails:
            out.append((group[t - 1], l, c))
            bad.add(t)
        for k, i in enumerate(group, 1):
            tot["traces"] += 1
            if done.get(k, 0) < lengths[i] and k not in bad:
                if search:
                    out.append((i, done.get(k, 0) + 1, "no behaviour of the specification explains this step"))
                else:
                    raise MachineryError("trace %d of %s stopped at %s of %d\n%s" % (
                        i, module, done.get(k), lengths[i], errors(lines)))
    return sorted(set(out)), tot
