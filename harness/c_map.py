"""C18, C19: structure mapping and Trestle fits."""
import copy
import itertools
import random

import gen
import gen_struct
import project
import record
import terms
import tlc
from c_terms import names
from c_tree import judge

from concept_formation import preprocessor as pp
from concept_formation.cobweb3 import Cobweb3Node
from concept_formation.structure_mapper import StructureMapper, mapping_cost, rename_flat

enc = terms.enc


def content(v):
    if isinstance(v, dict):
        return "{%s}" % ",".join(sorted("%r:%s" % (k, content(w)) for k, w in v.items()))
    if hasattr(v, "meanSq"):
        return "CV(%r,%r,%r)" % (v.num, v.mean, v.meanSq)
    if project.is_num(v):
        return "%.4f" % (round(v, 4) + 0.0)
    return repr(v)


def parts_of(target, is_table):
    """What each attribute contributes to a concept."""
    out = []
    for a, v in target.items():
        p = {"a": enc(a), "isnom": False, "isnum": False, "nom": {"-": 0},
             "num": {"n": 0, "m": project.log_float(0), "q": project.log_float(0)}}
        t = v if is_table else ({project.CV: v} if project.is_num(v) else {v: 1})
        nom = {}
        for val, c in t.items():
            if isinstance(val, str) and val == project.CV:
                p["isnum"] = True
                p["num"] = ({"n": project.as_int(c.num), "m": project.log_float(c.mean), "q": project.log_float(c.meanSq)}
                            if is_table else {"n": 1, "m": project.log_float(c), "q": project.log_float(0)})
            else:
                nom[project.nom(val, "trestle")] = project.as_int(c)
        if nom:
            p["isnom"], p["nom"] = True, nom
        out.append(p)
    return out


def weight_of(target, is_table):
    if not is_table:
        return 1
    return project.as_int(max(sum(c.num if isinstance(v, str) and v == project.CV else c for v, c in t.items())
                              for t in target.values()))


def rename(a, m):
    if isinstance(a, tuple):
        return tuple(rename(e, m) for e in a)
    return m.get(a, a)


def vars_of(a):
    if isinstance(a, tuple):
        return {v for e in a for v in vars_of(e)}
    return {a} if isinstance(a, str) and a[:1] == "?" else set()


def tell(meta, target, cvars, extra):
    """Let the projection know every attribute a renaming could give."""
    for a in target:
        vs = sorted(vars_of(a))
        for img in itertools.product(*[sorted(cvars | extra | {v}) for v in vs]):
            meta.add(rename(a, dict(zip(vs, img))))


def as_term(target, is_table):
    return {"d": [[enc(a), leaf(v)] for a, v in target.items()]}


def leaf(v):
    return enc(v) if isinstance(v, bool) else {"s": content(v)}


def common(meta, s, base, target, is_table, out, extra=frozenset()):
    cvars = {v for a in base.av_counts for v in vars_of(a)}
    tell(meta, target, cvars, set(extra))
    return {"in": as_term(target, is_table), "out": as_term(out, is_table), "parts": parts_of(target, is_table),
            "weight": weight_of(target, is_table), "battrs": [enc(a) for a in base.av_counts],
            "base": project.table(base.count, base.av_counts, "trestle", meta), "scales": project.scales(s.tree, meta)}


def flat_of(x, count):
    p = pp.Pipeline(pp.NameStandardizer(lambda: "?n%d" % next(count)), pp.Flattener(), pp.SubComponentProcessor())
    return p.transform(x)


def trained(r, meta, lo, hi, maxobj=3, crowd=None):
    cfg = record.config(r, "trestle")
    s = record.Session(cfg, meta, r.random())
    prof = gen_struct.StructProfile(r, maxobj=maxobj)
    if crowd:
        prof.crowd(*crowd)
    log = []
    for _ in range(r.randint(lo, hi)):
        x = prof.draw()
        log.append(repr(x))
        s.tree.ifit(x)
    return cfg, s, prof, log


def map_event(r, s, prof, meta, count, log):
    nodes = s.nodes()
    base = s.tree.root if r.random() < .6 else r.choice(nodes)
    x = prof.draw()
    is_table = r.random() < .2 and len(nodes) > 1
    if is_table:
        av = r.choice(nodes).av_counts
        m = {v: "?n%d" % next(count) for a in av for v in vars_of(a)}
        target = rename_flat(copy.deepcopy(av), m)
    else:
        target = flat_of(copy.deepcopy(x), count)
    keep = copy.deepcopy(target)
    log.append("map %r onto concept %d" % (keep, base.concept_id))
    ivars = sorted({v for a in keep for v in vars_of(a)})
    cvars = sorted({v for a in base.av_counts for v in vars_of(a)})
    dom = ivars

    def used():
        """A mapper, perhaps one that mapped an instance with the same names before."""
        sm = StructureMapper(base)
        if r.random() < .4 and ivars:
            sm.transform(rename_flat(copy.deepcopy(keep), dict(zip(ivars, r.sample(ivars, len(ivars))))))
            log.append("with a mapper that mapped it with its names exchanged before")
        return sm
    sm = used()
    if r.random() < .35 and ivars and cvars:
        k = r.randint(0, min(len(ivars), len(cvars)))
        dom = r.sample(ivars, k)
        start = dict(zip(dom, r.sample(cvars, k)))
        if r.random() < .6:                     # some objects sit where others belong
            good = [(a, v) for a, v in sm.transform(copy.deepcopy(target)) and sm.get_mapping().items() if v in cvars]
            r.shuffle(good)
            if len(good) > 1:
                free = [v for v in cvars if v not in dict(good).values()] or [good[0][1]]
                dom = [a for a, _ in good]
                start = dict(zip(dom, [v for _, v in good[1:]] + [r.choice(free)]))
            sm = used()
        log.append("starting with %r" % (start,))
        out = sm.transform(target, start if r.random() < .7 else frozenset(start.items()))
    else:
        out = sm.transform(target)
    e = common(meta, s, base, keep, is_table, out)
    e["dom"] = dom
    e.update(op="map", same=content(keep) == content(target), mapping=[list(p) for p in sorted(sm.get_mapping().items())])
    k = r.randint(0, min(len(ivars), len(cvars)))
    cm = dict(zip(r.sample(ivars, k), r.sample(cvars, k)))
    e["cmap"] = [list(p) for p in cm.items()]
    e["cost"] = project.log_float(mapping_cost(r.choice([dict, lambda m: frozenset(m.items())])(cm), copy.deepcopy(keep), base) if keep else 0)
    ko = copy.deepcopy(out)
    back = sm.undo_transform(out)
    e["back"] = as_term(back, is_table)
    e["same"] = e["same"] and content(ko) == content(out)
    return e


def altered(r, x):
    """The same attributes, one value changed."""
    x = copy.deepcopy(x)
    at = x
    while True:
        k = r.choice(list(at))
        if isinstance(at[k], dict) and at[k]:
            at = at[k]
            continue
        at[k] = round(r.uniform(0, 5), 1) if project.is_num(at[k]) else r.choice(["sq", "tri", "rect"])
        return x


def fit_event(r, s, prof, meta, log):
    x = prof.draw()
    if s.slot and r.random() < .25:
        x = altered(r, s.slot)
    log.append("ifit %r" % (x,))
    keep = copy.deepcopy(x)
    root = Cobweb3Node()
    root.tree = s.tree
    root.count = s.tree.root.count
    root.av_counts = copy.deepcopy(s.tree.root.av_counts)
    scales = project.scales(s.tree, meta)
    y = s.hand(x)
    s.tree.ifit(y)
    x = y
    got = record.root_delta((root.count, root.av_counts), s.tree)
    want = pp.Pipeline(pp.Flattener(), pp.SubComponentProcessor()).transform(keep)
    e = common(meta, s, root, want, False, got, extra={v for a in got for v in vars_of(a)})
    e.update(op="fit", scales=scales, gained=project.as_int(s.tree.root.count - root.count), same=repr(x) == repr(keep))
    e["in"] = enc(keep)
    for c in e["in"]["d"]:
        contents(c)
    return e


def contents(c):
    """Leaf values as strings, as in as_term."""
    if "d" in c[1]:
        for k in c[1]["d"]:
            contents(k)
    else:
        c[1] = leaf(terms.dec(c[1]))


def c18(run):
    n, m = run.pick((2, 2), (3, 2))
    for o, c, g in run.pick([(2, 2, 2), (2, 3, 1)], [(2, 2, 3), (2, 3, 2), (3, 2, 2), (3, 3, 1)]):
        run.model(tlc.model_check("MCMapping", "hill climbing, %d objects, %d variables, gains 0..%d" % (o, c, g), tlc.cfg(
            spec="Spec", constants={"Objs": "{%s}" % ",".join("o%d" % i for i in range(o)),
                                    "CVars": "{%s}" % ",".join("c%d" % i for i in range(c)), "MaxGain": str(g),
                                    **{"o%d" % i: "o%d" % i for i in range(o)}, **{"c%d" % i: "c%d" % i for i in range(c)}},
            invariants=["StaysLegal", "NeighboursLegal"], properties=["EndsBest"])))
    meta = project.Meta()
    traces, inputs = [], []
    count = itertools.count(1)
    for i in range(run.pick(120, 1200)):
        r = gen.rng_for(run.seed, "C18", i)
        evs, log, cfg = [], [], {"kind": "trestle", "scal": 0, "inner": True}
        try:
            with record.limit(60):
                if i % 6 == 5:                  # few objects, many variables to choose from
                    cfg, s, prof, log = trained(r, meta, 1, 3, crowd=(5, 7))
                    prof.crowd(1, 2)
                    prof.hid = 0
                else:
                    cfg, s, prof, log = trained(r, meta, 1, 9, r.choice([2, 3, 4]))
                for _ in range(4):
                    evs.append(map_event(r, s, prof, meta, count, log))
        except Exception as ex:
            evs.append({"op": "err", "err": record.err_name(ex)})
        traces.append({"cfg": cfg, "ev": evs})
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceMap", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"C18"'}), traces, inputs, meta)


def renamed(x, m):
    return {rename(k, m): renamed(v, m) if isinstance(v, dict) else v for k, v in x.items()}


def shape(tree):
    """The tree without concept ids."""
    def walk(n):
        return [content(n.av_counts), n.count, [walk(c) for c in n.children]]
    return walk(tree.root), {str(k): content(v) for k, v in tree.attr_scales.items()}


def twin_event(r, meta, cfg, prof, log):
    # which fresh name an object of a relation gets depends on the order of a
    # set of strings, so histories here have no relations
    draw = lambda: {k: v for k, v in prof.draw().items() if not isinstance(k, tuple)} or {"kind": "k1"}
    hist = [draw() for _ in range(r.randint(1, 7))]
    probe = draw()
    maps = []
    for x in hist + [probe]:
        ns = sorted(names(x))
        fresh = sorted(r.sample(["?k%02d" % k for k in range(60)], len(ns)))
        maps.append(dict(zip(ns, fresh)))
    log.append("fit twice, with other names: %r; probe %r; names %r" % (hist, probe, maps))
    sd = r.random()
    res = []
    for other in (False, True):
        getattr(pp, "_reset_gensym", lambda: None)()
        random.seed(sd)
        t = record.make_tree(cfg)
        order = []
        for x, m in zip(hist, maps):
            c = t.ifit(renamed(x, m) if other else copy.deepcopy(x))
            order.append(path_to(c))
        p = renamed(probe, maps[-1]) if other else copy.deepcopy(probe)
        random.seed(sd)
        cat = path_to(t.categorize(p))
        random.seed(sd)
        inf = t.infer_missing(p)
        res.append((shape(t), cat, order, inf))
    a, b = res
    return {"op": "twin", "sametree": a[0] == b[0] and a[2] == b[2], "samecat": a[1] == b[1],
            "inf1": enc(a[3]), "inf2": enc(b[3]), "names": [[k, v] for k, v in maps[-1].items()] or [["?", "?"]]}


def path_to(c):
    out = []
    while c.parent is not None:
        out.append([i for i, k in enumerate(c.parent.children) if k is c][:1])
        c = c.parent
    return out


def c19(run):
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(140, 1500)):
        r = gen.rng_for(run.seed, "C19", i)
        evs, log, cfg = [], [], {"kind": "trestle", "scal": 0, "inner": True}
        try:
            with record.limit(60):
                if i % 3 == 2:
                    cfg = record.config(r, "trestle")
                    prof = gen_struct.StructProfile(r)
                    evs.append(twin_event(r, meta, cfg, prof, log))
                else:
                    if i % 12 == 1:                 # many objects at once
                        cfg, s, prof, log = trained(r, meta, 0, 1, crowd=(4, 6))
                    else:
                        cfg, s, prof, log = trained(r, meta, 0, 2, r.choice([2, 3, 4]))
                    for _ in range(r.randint(2, 3) if prof.minobj else r.randint(2, 8)):
                        if r.random() < .06:
                            s.tree.clear()
                            log.append("clear")
                        evs.append(fit_event(r, s, prof, meta, log))
                        if i % 50 == 0 and len(evs) < 4:       # much use between two fits: names run on
                            k = r.choice([300, 700, 1000, 1000])
                            log.append("categorize %d times" % k)
                            for _ in range(k):
                                s.tree.categorize({"?o": {"a": "1"}, "?p": {"a": "2"}})
        except Exception as ex:
            evs.append({"op": "err", "err": record.err_name(ex)})
        traces.append({"cfg": cfg, "ev": evs})
        inputs.append({"cfg": cfg, "ops": log})
    run.model(tlc.model_check("MCTerms", "every struct instance of size %d" % run.pick(0, 1), tlc.cfg(
        spec="MCSpec", constants={"Family": '"struct"', "Size": str(run.pick(0, 1))},
        invariants=["FlatLaw", "SubLaw", "FlatKeys", "RenLaw"])))
    judge(run, "TraceMap", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"C19"'}), traces, inputs, meta)
