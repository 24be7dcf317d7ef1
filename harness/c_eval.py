"""C27: incremental evaluation."""
import copy
import random

import gen
import gen_struct
import project
import record
import tlc
from c_query import flat_profile
from c_tree import judge

from concept_formation import evaluation
from concept_formation.dummy import DummyTree

FNS = ["probability", "error", "absolute_error", "squared_error"]


def value(v, kind):
    if v is None:
        return "#none", [0]
    if kind != "cobweb" and project.is_num(v):
        return "#num", project.dec(v)
    return project.nom(v, kind), [0]


def one(r, i, meta, log):
    struct = i % 6 == 5
    cfg = record.config(r, "trestle" if struct else r.choice(["cobweb", "cobweb3", "cobweb3", "trestle"]))
    kind = cfg["kind"]
    dummy = struct and r.random() < .3
    prof = gen_struct.StructProfile(r, maxobj=2) if struct else flat_profile(r, kind)
    longrun = i % 10 == 3
    n = 12 if longrun else r.randint(0, 7)
    data = [prof.draw() for _ in range(n)]
    pool = sorted({a for x in data for a in x if not isinstance(x[a], dict) and not (struct and isinstance(a, tuple))},
                  key=repr)
    attr = r.choice(pool) if pool and r.random() < .9 else "unheard"
    fn = r.choice(FNS + ["probability"])
    # on a plain Cobweb tree numbers are symbols, so distances make no sense
    mixed = fn != "probability" and kind == "cobweb" and any(project.is_num(x.get(attr)) for x in data)
    if mixed:
        fn = "probability"
    length = n if longrun else r.choice([0, 1, 2, 3, n, n + 2])
    runs = 2 if longrun else r.choice([0, 1, 1, 2, 3])
    rnd = r.random() < .5
    log.append("evaluate %s on %r: %d of %r, %d runs, shuffle first %s" % (fn, attr, length, data, runs, rnd))
    real = getattr(evaluation, fn)
    proto = {"n": n, "len": length, "runs": runs, "rnd": rnd, "flat": not struct, "long": longrun}
    evs = []

    def make():
        return DummyTree() if dummy else record.make_tree(cfg)

    def fit_some(t):
        if extra:
            for x in extra:
                t.ifit(copy.deepcopy(x))
    extra = [prof.draw() for _ in range(r.choice([0, 0, 2]))]
    tree = make()
    fit_some(tree)
    given = [copy.deepcopy(x) for x in data]
    lst = list(data)
    values = []

    def spy(t, x, a, val):
        ident = [j for j, y in enumerate(data) if y is x]
        keep = copy.deepcopy(x)
        before = project.snapshot(t, kind, meta)
        exc, res = False, 0.0
        state = random.getstate()
        try:
            res = real(t, x, a, val)
        except record.Hang:
            raise
        except Exception:
            exc = True
        if exc:
            random.setstate(state)
        v, num = value(val, kind)
        evs.append({"op": "score", "id": ident[0] + 1 if ident else 0, "post": before, "fn": fn, "val": v, "x": num,
                    "res": project.log_float(res), "exc": exc, "attr": meta.add(attr),
                    "inst": {"nom": {}, "num": {}} if struct else project.instance(keep, kind, meta),
                    "truth": t is tree and a == attr and
                    ((attr not in keep and val is None) or (attr in keep and repr(val) == repr(keep[attr]))),
                    "judge": True,
                    "same": repr(keep) == repr(x) and before == project.snapshot(t, kind, meta)})
        values.append(None if exc else res)
        return len(values)

    sd = r.random()
    random.seed(sd)
    kw = {} if rnd and r.random() < .5 else {"randomize_first": rnd}
    args = [runs] if runs != 1 or r.random() < .5 else []
    table = evaluation.incremental_evaluation(tree, lst, attr, length, *args, score=spy, **kw)
    same = [repr(x) for x in data] == [repr(x) for x in given]
    plain = True
    if None not in values:
        t2 = make()
        fit_some(t2)
        random.seed(sd)
        lst2 = [copy.deepcopy(x) for x in given]
        if fn == "probability" and r.random() < .5:
            tab2 = evaluation.incremental_evaluation(t2, lst2, attr, length, *args, **kw)
        else:
            tab2 = evaluation.incremental_evaluation(t2, lst2, attr, length, runs, real, rnd)
        plain = [[close(values[v - 1], w) for v, w in zip(a, b)] for a, b in zip(table, tab2)] == \
            [[True for _ in a] for a in table] and [len(a) for a in table] == [len(b) for b in tab2]
    evs.append({"op": "end", "post": project.snapshot(tree, kind, meta), "table": table, "same": same, "plain": plain,
                "probes": [probe(r, tree, kind, meta, prof, data, log) for _ in range(3)] if not struct else []})
    return cfg, tree, proto, evs


def probe(r, tree, kind, meta, prof, data, log):
    """Score any value of any attribute, not only the one the instance has."""
    x = dict(r.choice(data)) if data and r.random() < .5 else dict(prof.draw())
    pool = sorted({a for y in data + [x] for a in y}, key=repr)
    attr = r.choice(pool) if pool and r.random() < .9 else "unheard"
    vals = [y[attr] for y in data if attr in y] + ([None] if attr not in x else [])
    if r.random() < .2:
        vals = ["nosuch"]
    comp = r.random() < .1
    val = {"part": "p"} if comp else r.choice(vals) if vals else None
    fn = r.choice(FNS)
    if kind == "cobweb" and project.is_num(val):
        fn = "probability"
    log.append("%s %r %r %r" % (fn, x, attr, val))
    keep = copy.deepcopy(x)
    before = project.snapshot(tree, kind, meta)
    exc, res = False, 0.0
    try:
        res = getattr(evaluation, fn)(tree, x, attr, val)
    except record.Hang:
        raise
    except Exception:
        exc = True
    v, num = ("#comp", [0]) if comp else value(val, kind)
    return {"fn": fn, "val": v, "x": num, "res": project.log_float(res), "exc": exc, "attr": meta.add(attr),
            "inst": project.instance(keep, kind, meta), "judge": True,
            "same": repr(keep) == repr(x) and before == project.snapshot(tree, kind, meta)}


def close(a, b):
    return a == b or abs(a - b) < 1e-9


def c27(run):
    run.model(tlc.model_check("MCEval", "evaluation loop", tlc.cfg(
        spec="Spec", constants={"MaxN": str(run.pick(3, 4)), "MaxLen": str(run.pick(3, 4)), "MaxRuns": "2"},
        invariants=["ScoredBeforeLearning", "EachOnce", "Complete", "GivenOrder"])))
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(200, 2000)):
        r = gen.rng_for(run.seed, "C27", i)
        log = []
        try:
            with record.limit(60):
                cfg, tree, proto, evs = one(r, i, meta, log)
        except Exception as ex:
            cfg = {"kind": "cobweb", "scal": 0, "inner": True}
            proto = {"n": 0, "len": 0, "runs": 0, "rnd": False, "flat": False, "long": False}
            evs = [{"op": "err", "err": record.err_name(ex)}]
        first = evs[0]["post"]["root"] if "post" in evs[0] else 1
        traces.append({"cfg": cfg, "root": first, "proto": proto, "ev": evs})
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceEval", tlc.cfg(spec="ESpec", constants={"Meta": "<- TraceMeta", "Prop": '"C27"'}), traces, inputs, meta)
    run.extra["scores"] = sum(len(t["ev"]) - 1 for t in traces)
