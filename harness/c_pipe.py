"""C35: pipelines of preprocessors."""
import copy
import itertools
import json
import re

import gen
import record
import tlc
from c_terms import Struct, rand_lists, spell
from c_tree import judge
from terms import enc

from concept_formation import preprocessor as pp


class Part(pp.Preprocessor):
    def __init__(self, k):
        self.k = k

    def transform(self, x):
        return dict(x, log=x["log"] + (self.k,))

    def undo_transform(self, x):
        q = x["log"]
        return dict(x, log=q[:-1] if q and q[-1] == self.k else q + ("!" + self.k,))


class OneWay(pp.OneWayPreprocessor):
    def __init__(self, k):
        self.k = k

    def transform(self, x):
        return dict(x, log=x["log"] + (self.k,))


def build(a, made=None):
    """With a dict of parts made: equal parts are the same object."""
    if "p" in a:
        return pp.Pipeline(*[build(x, made) for x in a["p"]])
    p = Part(a["k"]) if a["way"] == 2 else OneWay(a["k"])
    return p if made is None else made.setdefault((a["k"], a["way"]), p)


def logs(xs):
    return [list(x["log"]) for x in xs]


def marks(r, a):
    p = build(a, r.choice([None, {}]))
    ins = [{"log": tuple(r.choice("xyab") for _ in range(r.randint(0, 2))), "v": [r.randint(0, 2), {"w": 1}]} for _ in range(r.choice([1, 2, 3, 6]))]
    if r.random() < .3:
        ins += copy.deepcopy(r.choices(ins, k=r.randint(1, 3))) + copy.deepcopy(ins[:1])
    keep = copy.deepcopy(ins)
    done = [p.transform(x) for x in ins]
    undone = [p.undo_transform(y) for y in done]
    some = lambda q: r.choice([lambda: q, lambda: tuple(q), lambda: iter(q), lambda: (x for x in q)])()
    bdone = p.batch_transform(some(ins))
    kb = copy.deepcopy(bdone)
    bundone = p.batch_undo(some(bdone))
    refuses = True
    for f in (pp.Preprocessor().transform, pp.Preprocessor().undo_transform, pp.OneWayPreprocessor().transform):
        try:
            f({"a": 1})
            refuses = False
        except NotImplementedError:
            pass
    return {"op": "pipe", "a": a, "in": logs(ins), "done": logs(done), "undone": logs(undone), "bdone": logs(bdone),
            "bundone": logs(bundone), "refuses": refuses,
            "rest": keep == ins and kb == bdone and all(y["v"] == x["v"] and set(y) == {"log", "v"} for s in
                                                         (done, undone, bdone, bundone) for x, y in zip(keep, s))}


def nested_list(v, inside=False):
    if isinstance(v, dict):
        return any(nested_list(w) for w in v.values())
    return isinstance(v, list) and (inside or any(nested_list(w, True) for w in v))


MAKE = {"t": pp.Tuplizer, "l": pp.ListProcessor, "n": None, "s": pp.SubComponentProcessor, "f": pp.Flattener}
CHAINS = ["nsf", "tnsf", "lnsf", "tlnsf", "n", "sf", "tl", "ln", "ts"]


def parts(chain):
    count = itertools.count(1)
    return [pp.NameStandardizer(lambda: "?g%d" % next(count)) if c == "n" else MAKE[c]() for c in chain]


def renumber(*encoded):
    """Generated names (?oN) count from 1 in order of appearance."""
    seen = {}
    return json.loads(re.sub(r"\?o\d+", lambda m: "?o%d" % seen.setdefault(m.group(), len(seen) + 1), json.dumps(encoded)))


def chain(r, x, k, log):
    if "t" in k:
        x = {spell(a) if isinstance(a, tuple) else a: v for a, v in x.items()}
    log.append("chain %s of %r" % (k, x))
    keep = copy.deepcopy(x)
    ps = parts(k)
    cut = r.randint(0, len(ps))
    whole = pp.Pipeline(*ps) if r.random() < .5 else pp.Pipeline(pp.Pipeline(*ps[:cut]), *ps[cut:])
    y = whole.transform(x)
    out = copy.deepcopy(y)
    back = whole.undo_transform(y)
    qs = parts(k)
    z = copy.deepcopy(keep)
    for q in qs:
        z = q.transform(z)
    pz = copy.deepcopy(z)
    if "l" in k and "n" in k:       # the names of elements differ, and with them the order of a set of names
        pz = out
    for q in reversed(qs):
        z = q.undo_transform(z)
    return {"op": "chain", "in": enc(keep), "whole": renumber(enc(out))[0], "parts": renumber(enc(pz))[0], "back": enc(back), "pback": enc(z),
            "same": repr(keep) == repr(x)}


BATCHED = {"tuplize": pp.Tuplizer, "lists": pp.ListProcessor, "extract": pp.ExtractListElements,
           "sub": pp.SubComponentProcessor, "flat": pp.Flattener, "vars": pp.ObjectVariablizer,
           "nominal": pp.NumericToNominal, "numeric": lambda: pp.NominalToNumeric("zero"), "sane": lambda: pp.Sanitizer("trestle"),
           "chain": lambda: pp.Pipeline(pp.SubComponentProcessor(), pp.Flattener())}


def batch(r, xs, k, log):
    log.append("batch %s of %r" % (k, xs))
    p, keep = BATCHED[k](), copy.deepcopy(xs)
    done = p.batch_transform(xs if r.random() < .6 else (x for x in xs))
    same = repr(keep) == repr(xs) and isinstance(done, list)
    e = {"op": "batch", "done": renumber(*[enc(x) for x in done])}
    kd = copy.deepcopy(done)
    back = p.batch_undo(done)
    same = same and repr(kd) == repr(done)
    p = BATCHED[k]()
    singles = [p.transform(copy.deepcopy(x)) for x in keep]
    e["singles"] = renumber(*[enc(x) for x in singles])
    e["back"], e["backs"] = [enc(x) for x in back], [enc(p.undo_transform(x)) for x in singles]
    e["same"] = same
    return e


def grown(r, depth=3):
    """A random composition, larger than those enumerated."""
    if depth == 0 or r.random() < .5:
        return {"k": r.choice("abcdef"), "way": 1 if r.random() < .25 else 2}
    return {"p": [grown(r, depth - 1) for _ in range(r.randint(0, 6))]}


def c35(run):
    n = run.pick(3, 4)
    shapes, m = tlc.generate("MCPipe", "every pipeline of at most %d parts" % n, tlc.cfg(
        spec="Spec", constants={"MaxParts": str(n)}, invariants=["Reverses", "InOrder", "Grouping"]))
    run.model(m)
    shapes.sort(key=str)
    r = gen.rng_for(run.seed, "C35", 0)
    most = run.pick(900, 12000)
    run.extra["pipelines"] = len(shapes)
    shapes = r.sample(shapes, most) if len(shapes) > most else shapes
    run.extra["pipelines_replayed"] = len(shapes)
    traces, inputs = [], []

    def add(what, f):
        try:
            with record.limit(20):
                evs = [f()]
        except Exception as ex:
            evs = [{"op": "err", "err": record.err_name(ex)}]
        traces.append({"ev": evs})
        inputs.append({"ops": what})
    for a in shapes:
        add(["pipeline %r" % (a,)], lambda: marks(r, a))
    for i in range(run.pick(300, 3000)):
        a = {"p": [grown(r) for _ in range(r.randint(1, 6))]}
        add(["pipeline %r" % (a,)], lambda: marks(r, a))
    for i in range(run.pick(150, 1500)):
        k = r.choice(list(BATCHED))
        xs = [rand_lists(r) if k in ("lists", "extract", "sane") else Struct(r, 1).draw() for _ in range(r.randint(0, 4))]
        xs += copy.deepcopy(xs[:1]) if r.random() < .5 else []
        log = []
        add(log, lambda: batch(r, xs, k, log))
    for i in range(run.pick(500, 6000)):
        x = Struct(r, 2).draw() if i % 2 else rand_lists(r)
        k = r.choice(CHAINS)
        if nested_list(x):      # elements of inner lists are named without their path
            continue
        if i % 2 == 0 and "l" not in k:
            continue
        log = []
        add(log, lambda: chain(r, x, k, log))
    judge(run, "TracePipe", tlc.cfg(spec="TSpec"), traces, inputs, {})
