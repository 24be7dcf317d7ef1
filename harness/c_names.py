"""C36: functions on the names inside structured attributes."""
import copy

import gen
import record
import tlc
from c_tree import judge
from terms import dec, enc

from concept_formation import preprocessor as pp
from concept_formation import structure_mapper as sm

WORDS = ["?a", "?b", "?o1", "?o12", "c", "color", "_h", "_", "?", "", "has-component", "x y", "sub1", "c1"]


def attr(r, depth=3):
    if depth == 3 and r.random() < .06:         # nested many times
        a = r.choice([("r", "?a"), ("?b", "_h"), ("c", "?o1", "?a")])
        for _ in range(r.randint(4, 12)):
            a = r.choice([("p", a), (a, "?b"), ("q", a, "c")])
        return a
    if depth == 0 or r.random() < .45:
        return r.choice(WORDS)
    return tuple(attr(r, depth - 1) for _ in range(r.randint(1, 4)))


def pieces(a):
    yield a
    if isinstance(a, tuple):
        for e in a:
            yield from pieces(e)


def disturb(r, a):
    """An attribute like a, perhaps renamed or changed in one place."""
    if isinstance(a, tuple):
        k = r.random()
        if k < .06:
            return a + ("c",)
        if k < .1 and len(a) > 1:
            return a[:-1]
        return tuple(disturb(r, e) for e in a)
    if r.random() < .08:
        return ("c", "?a")
    return r.choice(["?a", "?b", "?n", "c"]) if r.random() < (.5 if a[:1] == "?" else .1) else a


def mapping(r, tuples=()):
    vs = r.sample(["?a", "?b", "?o1", "?o12", "?"], r.randint(0, 4))
    f = dict(zip(vs, r.sample(["?a", "?b", "?n", "?m", "?o1"], len(vs))))
    if r.random() < .2:
        f["c"] = "?n7"
    for t in tuples:
        if r.random() < .4:
            f[t] = "?whole"
    return f


def pairs(f):
    return [[enc(k), enc(v)] for k, v in f.items()]


def matchable(a):
    return all(isinstance(p, tuple) or p for p in pieces(a))


def one(r, a):
    f = mapping(r)
    inner = [p for e in a for p in pieces(e) if isinstance(p, tuple)] if isinstance(a, tuple) else []
    g = mapping(r, inner)
    keep = repr((a, f, g))
    e = {"op": "attr", "a": enc(a), "f": pairs(f), "g": pairs(g),
         "vars": [enc(x) for x in pp.get_attribute_components(a)],
         "all": [enc(x) for x in pp.get_attribute_components(a, vars_only=False)],
         "ren": enc(()), "bound": enc(()), "occ": [], "match": []}
    if isinstance(a, tuple):
        e["ren"] = enc(pp.rename_relation(a, g))
        e["bound"] = enc(sm.bind_flat_attr(a, f))
    for c in r.sample(WORDS, 3) + [r.choice(list(pieces(a)))]:
        e["occ"].append({"c": enc(c), "v": bool(sm.contains_component(c, a))})
    for b in [a, disturb(r, a), disturb(r, a), attr(r, 1)]:
        if matchable(a) and matchable(b):
            e["match"].append({"b": enc(b), "v": bool(sm.is_partial_match(a, b, f))})
    e["same"] = keep == repr((a, f, g))
    return e


def several(r):
    n = r.randint(0, 5)
    x = {}
    while len(x) < n:
        a = attr(r)
        if a:
            x[a] = r.choice(["v", 1, 2.5, "?a", True])
    vs = sorted({v for a in x for v in pieces(a) if isinstance(v, str) and v[:1] == "?"})
    # one-to-one, to names not there or among each other
    to = list(vs)
    if r.random() < .5:
        r.shuffle(to)
    else:
        to = ["?new%d" % k if r.random() < .6 else v for k, v in enumerate(vs)]
    f = dict(zip(vs, to))
    if r.random() < .3:                 # whole structured attributes can be renamed too
        for k, t in enumerate(t for t in x if isinstance(t, tuple)):
            if r.random() < .5:
                f[t] = "?whole%d" % k
    keep = repr((x, f))
    e = {"op": "inst", "x": enc(x), "f": pairs(f), "vars": [enc(v) for v in sm.get_component_names(x)],
         "all": [enc(v) for v in sm.get_component_names(x, False)], "ren": enc(sm.rename_flat(x, f))}
    e["same"] = keep == repr((x, f))
    return e, "instance %r mapping %r" % (x, f)


def c36(run):
    depth = 2
    attrs, m = tlc.generate("MCNames", "every small attribute under every small renaming", tlc.cfg(
        spec="Spec", constants={"MaxDepth": str(depth)}, invariants=["Undone", "Moved", "Self", "Bound", "Found"]))
    run.model(m)
    attrs.sort(key=str)
    r = gen.rng_for(run.seed, "C36", 0)
    run.extra["attributes"] = len(attrs)
    traces, inputs = [], []

    def add(what, f):
        try:
            with record.limit(20):
                evs = [f()]
        except Exception as ex:
            evs = [{"op": "err", "err": record.err_name(ex)}]
        traces.append({"ev": evs})
        inputs.append({"ops": what})
    for t in attrs:
        a = dec(t)
        add(["attribute %r" % (a,)], lambda: one(r, a))
    for i in range(run.pick(400, 8000)):
        a = attr(r)
        if a:
            add(["attribute %r" % (a,)], lambda: one(r, a))
    for i in range(run.pick(300, 6000)):
        what = []

        def f():
            e, w = several(r)
            what.append(w)
            return e
        add(what, f)
    judge(run, "TraceNames", tlc.cfg(spec="TSpec"), traces, inputs, {})
