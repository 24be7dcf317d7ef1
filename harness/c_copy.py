"""C34: trees and copies of trees are independent of each other."""
import copy
import pickle
import random

import clean
import gen
import gen_struct
import project
import record
import tlc
from c_query import flat_profile, probe
from c_tree import judge, mc_cobweb
from c_twin import CFG

from concept_formation.dummy import DummyTree


def snap(t, kind, meta):
    return {"post": project.snapshot(t, kind, meta), "scales": project.scales(t, meta)}


def twin(a, b, kind, meta, what):
    return {"op": "twin", "what": what, "a": project.snapshot(a, kind, meta), "b": project.snapshot(b, kind, meta),
            "as": project.scales(a, meta), "bs": project.scales(b, meta)}


def where(c):
    """The way from the root to a concept, as positions among children."""
    out = []
    while c.parent is not None:
        out.append(str([x is c for x in c.parent.children].index(True)))
        c = c.parent
    return "/".join(reversed(out))


def work(t, seed, op, x):
    """One operation with its own random choices; what it answers, up to the identity of concepts."""
    random.seed(seed)
    x = copy.deepcopy(x)
    if op == "fit":
        return where(t.ifit(x))
    if op == "categorize":
        return where(t.categorize(x))
    if op == "clear":
        t.clear()
        return ""
    return repr(sorted(t.infer_missing(x).items(), key=repr))


def ops_for(r, prof, kind, struct, n):
    out = []
    for _ in range(n):
        k = r.random()
        op = "fit" if k < .75 else "categorize" if k < .85 else "infer" if k < .97 else "clear"
        out.append((r.random(), op, prof.draw()))
    return out


def profile(r, kind, struct):
    return gen_struct.StructProfile(r) if struct else flat_profile(r, kind)


def copying(r, meta, log, pristine):
    cfg = record.config(r)
    kind = cfg["kind"]
    struct = kind == "trestle" and r.random() < .6
    prof = profile(r, kind, struct)
    t = record.make_tree(cfg)
    large = r.random() < .2 and not struct
    if large:
        prof = gen.Crowd(r, kind)
    past = ops_for(r, prof, kind, struct, r.randint(20, 45) if large else r.randint(0, 9))
    for sd, op, x in past:
        log.append("%s %r" % (op, x))
        work(t, sd, op, x)
    how = r.choice(["deepcopy", "pickle"])
    log.append(how)
    evs = [dict(snap(t, kind, meta), op="state", before="", after="")]
    c = copy.deepcopy(t) if how == "deepcopy" else pickle.loads(pickle.dumps(t))
    evs.append(dict(snap(t, kind, meta), op="still", what="copying changes nothing"))
    evs.append(twin(t, c, kind, meta, "a copy is the same tree"))
    evs.append({"op": "same", "what": "a copy has the settings of its original", "x": settings(t), "y": settings(c)})
    first, second = (t, c) if r.random() < .5 else (c, t)
    more = ops_for(r, prof, kind, struct, r.randint(1, 5))
    evs.append(dict(snap(second, kind, meta), op="state", before="", after=""))
    res = []
    for sd, op, x in more:
        log.append("then %s %r" % (op, x))
        res.append(work(first, sd, op, x))
    evs.append(dict(snap(second, kind, meta), op="still", what="work on one leaves the other alone"))
    evs.append({"op": "same", "what": "a copy answers like its original", "x": "|".join(res),
                "y": "|".join(work(second, sd, op, x) for sd, op, x in more)})
    evs.append(twin(first, second, kind, meta, "a copy continues like its original"))
    if not large:
        return cfg, evs
    ways = [ops_for(r, prof, kind, struct, 12) for _ in range(2)]       # then each goes its own way
    for pair in zip(*ways):
        for w, (sd, op, x) in zip((first, second), pair):
            log.append("%s: %s %r" % ("one" if w is first else "the other", op, x))
            work(w, sd, op, x)
    for w, way in zip((first, second), ways):
        alone, _ = pristine.run(solo, cfg, past + more + way)
        evs.append(twin(alone, w, kind, meta, "a tree and its copy that go different ways become what each becomes alone"))
        evs.append({"op": "near", "what": "a tree and its copy that go different ways answer as each does alone",
                    "x": utilities(alone), "y": utilities(w)})
    return cfg, evs


def utilities(t):
    return [project.log_float(v) for n in nodes(t)[:40]
            for v in (n.expected_correct_guesses() if n.count else 0, n.category_utility())]


def resume(data, plan):
    t = pickle.loads(data)
    said = [work(t, *o) for o in plan]
    return t, said, [n.concept_id for n in nodes(t)]


def nodes(t):
    out, todo = [], [t.root]
    while todo and len(out) < 3000:
        out.append(todo.pop())
        todo += out[-1].children
    return out


def elsewhere(r, meta, log, pristine):
    """A tree is stored and taken up again in another process, perhaps twice."""
    cfg = record.config(r)
    kind = cfg["kind"]
    struct = kind == "trestle" and r.random() < .6
    prof = profile(r, kind, struct)
    plans = [ops_for(r, prof, kind, struct, r.randint(1, 9)) for _ in range(r.randint(2, 3))]
    log += ["%s %r" % o[1:] for o in plans[0]]
    t, _ = solo(cfg, plans[0])
    c, _ = pristine.run(solo, cfg, plans[0])
    evs = [twin(t, c, kind, meta, "a tree made in another process is the same")]
    for plan in plans[1:]:
        log.append("stored; in another process:")
        log += ["%s %r" % o[1:] for o in plan]
        data = pickle.dumps(c)
        c, said, ids = pristine.run(resume, data, plan)
        evs.append({"op": "ids", "what": "concepts made after restoring a tree have ids of their own", "ids": ids})
        if len(set(ids)) < len(ids):
            return cfg, evs
        evs.append({"op": "same", "what": "a restored tree answers like its original", "x": "|".join(work(t, *o) for o in plan),
                    "y": "|".join(said)})
        evs.append(twin(t, c, kind, meta, "a restored tree continues like its original"))
        evs.append({"op": "same", "what": "a copy has the settings of its original", "x": settings(t), "y": settings(c)})
    return cfg, evs


def settings(t):
    return "%s %s %s" % (type(t).__name__, getattr(t, "scaling", None), getattr(t, "inner_attr_scaling", None))


def solo(cfg, plan):
    t = record.make_tree(cfg)
    said = [work(t, *o) for o in plan]
    return t, said


def side_by_side(r, meta, log, pristine):
    """Several trees worked on in turn behave as each would alone (each alone in a process of its own)."""
    n = r.randint(2, 3)
    trees, plans = [], []
    prof = None
    alike = r.random() < .5         # the same data for trees with different settings
    for k in range(n):
        cfg = record.config(r, trees[0]["kind"] if trees and alike else None)
        if prof is None or not alike:
            struct = cfg["kind"] == "trestle" and r.random() < .6
            prof = profile(r, cfg["kind"], struct)
        trees.append(cfg)
        plans.append(ops_for(r, prof, cfg["kind"], struct, r.randint(1, 7)))
    alone, said = [], []
    for cfg, plan in zip(trees, plans):
        t, q = pristine.run(solo, cfg, plan)
        said.append(q)
        alone.append(t)
    turn = [k for k, p in enumerate(plans) for _ in p]
    r.shuffle(turn)
    mixed = [record.make_tree(cfg) for cfg in trees]
    dummy = DummyTree()
    at, heard = [0] * n, [[] for _ in range(n)]
    evs = []
    for k in turn:
        o = plans[k][at[k]]
        at[k] += 1
        log.append("tree %d (%s): %s %r" % (k, trees[k]["kind"], o[1], o[2]))
        j = r.choice([m for m in range(n) if m != k])
        evs.append(dict(snap(mixed[j], trees[j]["kind"], meta), op="state", before="", after=""))
        heard[k].append(work(mixed[k], *o))
        if r.random() < .2:
            dummy.ifit(copy.deepcopy(o[2]))
        evs.append(dict(snap(mixed[j], trees[j]["kind"], meta), op="still", what="work on one tree leaves another alone"))
    for k in range(n):
        evs.append(twin(alone[k], mixed[k], trees[k]["kind"], meta, "a tree among others becomes what it becomes alone"))
        evs.append({"op": "same", "what": "a tree among others answers as it does alone",
                    "x": "|".join(said[k]), "y": "|".join(heard[k])})
    return trees[0], evs


def c34(run):
    pristine = clean.Clean()
    mc_cobweb(run, run.pick(3, 4))
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(260, 2600)):
        r = gen.rng_for(run.seed, "C34", i)
        log = []
        cfg = {}
        try:
            with record.limit(60):
                if i % 6 == 5:
                    cfg, evs = elsewhere(r, meta, log, pristine)
                else:
                    cfg, evs = copying(r, meta, log, pristine) if i % 2 else side_by_side(r, meta, log, pristine)
        except Exception as ex:
            evs = [{"op": "err", "err": record.err_name(ex)}]
        traces.append({"cfg": cfg, "ev": evs})
        inputs.append({"cfg": cfg, "ops": log})
    pristine.close()
    judge(run, "TraceTwin", CFG, traces, inputs, meta)
