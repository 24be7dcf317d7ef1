"""C04 (fits as searches) and C05, C07-C10: queries against recorded trees."""
import copy
import itertools
import math
import random

import gen
import gen_struct
import project
import record
import terms
import tlc
from c_tree import judge, mc_cobweb, replay

CV = project.CV


def flat_profile(r, kind):
    """On a Trestle tree a pair like ('x', 'p1') is the flattened form of
    attribute x of component p1; given by the caller it would come back as
    that component, so flat Trestle instances use no pairs."""
    p = gen.Profile(r, kind)
    if kind == "trestle":
        def keep(q):
            return [a for a in q if not (isinstance(a, tuple) and len(a) == 2)]
        p.nom, p.num, p.hid = keep(p.nom), keep(p.num), keep(p.hid)
        if not p.nom + p.num:
            p.nom = ["a"]
            p.vals["a"] = ["1", "2"]
            for q in p.protos:
                q["a"] = r.choice(["1", "2"])
    return p


def probe(r, prof, kind):
    """An instance to ask about: like the fitted ones, but partial or odd; or one asked about before."""
    if not hasattr(prof, "asked"):
        prof.asked = []
    if prof.asked and getattr(prof, "again", False):
        prof.again = False
        return dict(prof.asked[-1])
    if prof.asked and r.random() < .25:
        return dict(r.choice(prof.asked))
    x = prof.draw()
    for a in list(x):
        if r.random() < .25:
            del x[a]
    if r.random() < .15:
        x["unseen"] = r.choice(["u", "v"])
    if x and r.random() < .2:
        a = r.choice(list(x))
        x[a] = "other"
    if kind != "cobweb" and r.random() < .15:
        a = r.choice(prof.num or prof.nom or ["unseen2"])
        x[a] = round(r.uniform(-5, 5), 2)
    prof.asked.append(dict(x))
    return x


def sessions(run, tag, n, length, kinds, query, queries=3, at=.3, long_every=12, long_len=40):
    meta = project.Meta()
    out, inputs = [], []
    for i in range(n):
        r = gen.rng_for(run.seed, tag, i)
        cfg = record.config(r, {17: "cobweb", 27: "cobweb3", 57: "cobweb"}.get(i % 60) if i % 60 in (17, 27, 57) and "cobweb" in kinds else r.choice(kinds))
        s = record.Session(cfg, meta, r.random())
        prof = flat_profile(r, cfg["kind"])
        log = []
        m = r.randint(0 if i % 15 == 0 else 1, length)
        if long_every and i % long_every == long_every - 1:
            m = long_len
            at_now = 0
        else:
            at_now = at
        if i % 10 == 7:             # a larger tree, its growth unseen
            prof = prof if cfg["kind"] == "trestle" else gen.Crowd(r, cfg["kind"])
            if cfg["kind"] != "cobweb" and i % 20 == 7:
                prof = gen.Steep(r, cfg["kind"])
            xs = [prof.draw() for _ in range(r.randint(20, 90))]
            if i % 30 == 17:
                prof = gen.Poll(r, cfg["kind"])
                xs = [prof.draw() for _ in range(r.randint(200, 320))]
            if i % 30 == 27 and cfg["kind"] != "trestle":       # very many values
                prof = gen.Many(r, cfg["kind"])
                xs = [prof.draw() for _ in range(r.randint(90, 130))]
            log += ["fit %r" % (x,) for x in xs]
            s.bulk(xs)
            m = 0
        for k in range(m):
            x = prof.draw()
            log.append("fit %r" % (x,))
            s.fit(x)
            if s.dead:
                break
            if r.random() < at_now:
                query(r, s, prof, log)
            if s.dead:
                break
        for _ in range(queries):
            if not s.dead:
                query(r, s, prof, log)
        if i % 8 == 3 and not s.dead:       # another life with as many instances
            log.append("clear")
            s.clear()
            if r.random() < .5:
                prof.protos = [{a: r.choice(prof.vals[a]) for a in q} for q in prof.protos]
            for _ in range(m if r.random() < .7 else r.randint(0, 3)):
                x = prof.draw()
                log.append("fit %r" % (x,))
                if not s.dead:
                    s.fit(x)
            prof.again = True
            for _ in range(queries):
                if not s.dead:
                    query(r, s, prof, log)
        out.append(s.trace())
        inputs.append({"cfg": cfg, "ops": log})
    return out, inputs, meta


FLAT = ["cobweb", "cobweb3", "cobweb3", "trestle"]


def c04(run):
    mc_cobweb(run, run.pick(4, 6))
    meta = project.Meta()
    traces, inputs = [], []
    n = run.pick(260, 2600)
    for i in range(n):
        r = gen.rng_for(run.seed, "c04", i)
        cfg = record.config(r)
        s = record.Session(cfg, meta, r.random())
        if cfg["kind"] == "trestle" and r.random() < .6:
            import gen_struct
            prof = gen_struct.StructProfile(r)
        else:
            prof = gen.Profile(r, cfg["kind"])
        m = r.randint(2, 14) if i % 6 else r.randint(18, 34)
        if cfg["kind"] == "trestle":
            m = min(m, 10)
        ins = []
        if i % 9 == 4:
            if cfg["kind"] != "trestle":
                prof = gen.Crowd(r, cfg["kind"])
            xs = [prof.draw() for _ in range(r.randint(15, 120) if cfg["kind"] != "trestle" else r.randint(10, 25))]
            ins += [repr(x) for x in xs]
            s.bulk(xs)
            m = 5
        for _ in range(m):
            if s.dead:
                break
            if s.ev and r.random() < .02:
                s.clear()
                ins.append("clear")
            else:
                x = prof.draw()
                ins.append(repr(x))
                s.fit(x)
            if s.dead:
                break
        traces.append(s.trace())
        inputs.append({"cfg": cfg, "ops": ins})
    short, what = replay(run, "C04", run.pick([(3, None), (4, 60)], [(3, None), (4, None), (5, 900), (6, 300)]), meta)
    traces, inputs = traces + short, inputs + what
    judge(run, "TraceCobweb", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta"}),
          traces, inputs, meta, search=True)
    run.extra["fits"] = sum(len(t["ev"]) for t in traces)


def _cu(r, s, prof, log):
    x = probe(r, prof, s.kind)
    nodes = s.nodes()
    inner = [n for n in nodes if n.children]
    node = r.choice(inner) if inner and r.random() < .85 else r.choice(nodes)
    log.append("utilities at %s of %r" % (node.concept_id, x))
    lf = project.log_float
    subsets = [["best", "new", "merge", "split"], ["best", "new"], ["best", "merge"], ["new", "split"]]

    def ask():
        e = {"node": node.concept_id, "inst": project.instance(x, s.kind, s.meta),
             "ecg": lf(node.expected_correct_guesses()), "cu": lf(node.category_utility()),
             "fringe": lf(node.cu_for_fringe_split(x) if node.count else 0),
             "new": [0], "const": [0], "kids": [], "merges": [], "b1": 0, "b1cu": [0], "b2": 0, "best": []}
        kids = list(node.children)
        if kids:
            e["new"] = lf(node.cu_for_new_child(x))
            e["const"] = lf(node.compute_relative_CU_const(x))
            e["kids"] = [{"id": c.concept_id, "ins": lf(node.cu_for_insert(c, x)),
                          "rel": lf(node.relative_cu_for_insert(c, x)),
                          "split": lf(node.cu_for_split(c) if c.children else 0)} for c in kids]
            pairs = [(a, b) for a in kids for b in kids if a is not b]
            r.shuffle(pairs)
            e["merges"] = [{"a": a.concept_id, "b": b.concept_id, "v": lf(node.cu_for_merge(a, b, x))}
                           for a, b in pairs[:5]]
            cu, b1, b2 = node.two_best_children(x)
            e.update(b1=b1.concept_id, b1cu=lf(cu), b2=b2.concept_id if b2 else 0)
            for ops in subsets:
                c, op = node.get_best_operation(x, b1, b2, cu, ops)
                e["best"].append({"ops": ops, "op": op, "cu": lf(c)})
        e["post"] = project.snapshot(s.tree, s.kind, s.meta)
        return e
    s.ask("cu", ask)


def _cat(r, s, prof, log):
    for _ in range(3):
        x = probe(r, prof, s.kind)
        log.append("categorize %r" % (x,))
        s.ask("cat", lambda: {"inst": project.instance(x, s.kind, s.meta),
                              "ret": s.tree.categorize(dict(x)).concept_id})


def outcome(v, kind):
    if v is None:
        return {"o": "#none", "v": [0]}
    if kind != "cobweb" and project.is_num(v):
        return {"o": "#num", "v": project.log_float(v)}
    return {"o": project.nom(v, kind), "v": [0]}


def wname(v, kind):
    if v is None:
        return "#none"
    if kind != "cobweb" and isinstance(v, str) and v == CV:
        return "#num"
    return project.nom(v, kind)


def preds(node, attr, kind, fns, reps):
    out = []
    for fn in fns:
        for none in (True, False):
            for _ in range(reps):
                p = outcome(node.predict(attr, fn, none), kind)
                p["none"] = none
                out.append(p)
    return out


def often(r, node, attr, kind, n):
    """How often each outcome is drawn; mean and variance of the numbers."""
    none = r.random() < .5
    got = [node.predict(attr, r.choice(["sampled", "s"]), none) for _ in range(n)]
    c, nums = {}, []
    for v in got:
        o = outcome(v, kind)["o"]
        c[o] = c.get(o, 0) + 1
        if o == "#num":
            nums.append(v)
    avg = math.fsum(nums) / len(nums) if nums else 0.0
    var = math.fsum((v - avg) ** 2 for v in nums) / len(nums) if nums else 0.0
    return {"n": n, "none": none, "c": [{"o": o, "n": k} for o, k in c.items()], "avg": project.log_float(avg),
            "var": project.log_float(var)}


def some_concept(r, s):
    """Any concept, but often one of the large ones at the top."""
    return r.choice([s.tree.root] * 3 + list(s.tree.root.children)[:2]) if r.random() < .4 else r.choice(s.nodes())


def _nom(r, s, prof, log):
    node = some_concept(r, s)
    root = s.tree.root
    pool = list(root.av_counts) + ["unknown", "_unknown"]
    lf = project.log_float
    for attr in r.sample(pool, min(len(pool), 3)):
        log.append("predict %r at %s" % (attr, node.concept_id))

        def ask():
            k = s.kind
            wn = node.get_weighted_values(attr)
            wv = node.get_weighted_values(attr, False)
            vals = [v for v in root.av_counts.get(attr, {}) if not (k != "cobweb" and v == CV)]
            vals += [None, "never seen"]
            return {"node": node.concept_id, "attr": s.meta.add(attr),
                    "wnone": [{"o": wname(v, k), "p": lf(p)} for v, p in wn],
                    "wval": [{"o": wname(v, k), "p": lf(p)} for v, p in wv],
                    "sum": lf(sum(p for _, p in wn)),
                    "probs": [{"o": wname(v, k), "p": lf(node.probability(attr, v))} for v in vals],
                    "ml": preds(node, attr, k, ["most likely", "m"], 2),
                    "sm": preds(node, attr, k, ["sampled", "s"], 4),
                    "fr": often(r, node, attr, k, 400 if r.random() < .2 else 0)}
        s.ask("nom", ask)


def _num(r, s, prof, log):
    node = some_concept(r, s)
    pool = [a for a in s.tree.root.av_counts if CV in s.tree.root.av_counts[a]]
    other = [a for a in s.tree.root.av_counts if a not in pool] + ["unknown"]
    attrs = r.sample(pool, min(2, len(pool))) + r.sample(other, 1)
    lf = project.log_float
    for attr in attrs:
        cv = node.av_counts.get(attr, {}).get(CV)
        c = cv.mean if cv is not None else 0
        xs = [round(c + r.uniform(-1, 1) * m, 4) for m in (0, .5, 3, 20)] + [r.choice([0, -1, 1000, 5])]
        xs = [x if abs(x) < 1e5 else round(x * 4) / 4 for x in xs]      # doubles that are decimals
        log.append("density of %r at %s for %r" % (attr, node.concept_id, xs))

        def ask():
            return {"node": node.concept_id, "attr": s.meta.add(attr),
                    "qs": [{"x": project.dec(x), "p": lf(node.probability(attr, x))} for x in xs],
                    "ml": preds(node, attr, s.kind, ["most likely", "m"], 1),
                    "sm": preds(node, attr, s.kind, ["sampled", "s"], 4),
                    "fr": often(r, node, attr, s.kind, 400 if r.random() < .2 else 0)}
        s.ask("num", ask)


def _inf(r, s, prof, log):
    for _ in range(2):
        x = probe(r, prof, s.kind)
        fn, none = r.choice(["most likely", "m", "sampled", "s"]), r.random() < .5
        log.append("infer %r %s %s" % (x, fn, none))

        def ask():
            res = s.tree.infer_missing(dict(x), fn, none)
            out = {"nom": {}, "num": {}}
            for a, v in res.items():
                k = s.meta.add(a)
                if s.kind != "cobweb" and project.is_num(v):
                    out["num"][k] = project.log_float(v)
                else:
                    out["nom"][k] = project.nom(v, s.kind)
            return {"inst": project.instance(x, s.kind, s.meta), "fn": fn[0], "none": none, "res": out}
        s.ask("inf", ask)


def term(x, logged):
    """A structured instance as a term; numbers as decimals or as logged doubles."""
    out = []
    for k, v in x.items():
        if isinstance(v, dict):
            t = term(v, logged)
        elif project.is_num(v):
            t = {"v": {"num": logged(v)}}
        else:
            t = {"v": {"nom": project.nom(v, "trestle")}}
        out.append([terms.enc(k), t])
    return {"d": out}


def vars_of(a):
    if isinstance(a, tuple):
        return {v for e in a for v in vars_of(e)}
    return {a} if isinstance(a, str) and a[:1] == "?" else set()


def objects(x):
    return {v for k, w in x.items() for v in vars_of(k) | (objects(w) if isinstance(w, dict) else set())}


def tell(meta, tree, *insts):
    """Let the projection know every attribute a matching could give."""
    cv = {v for a in tree.root.av_counts for v in vars_of(a)}

    def sub(a, m):
        return tuple(sub(e, m) for e in a) if isinstance(a, tuple) else m.get(a, a)

    def flat(x, outer):
        for k, v in x.items():
            a = k if outer is None else (("_", (k, outer)) if k[0] == "_" else (k, outer))
            if isinstance(k, str) and k[0] == "?":
                if outer is not None:
                    yield ("has-component", outer, k)
                a = k
            if isinstance(v, dict):
                for b in flat(v, a):
                    yield b
            else:
                yield a
    for x in insts:
        for a in flat(x, None):
            vs = sorted(vars_of(a))
            for img in itertools.product(*[sorted(cv | {v}) for v in vs]):
                meta.add(sub(a, dict(zip(vs, img))))


def sprobe(r, prof, most):
    """A structured instance to ask about, with at most so many objects."""
    while True:
        x = prof.draw()
        while len(objects(x)) > most:
            o = r.choice(sorted(objects(x)))
            x = {k: ({j: w for j, w in v.items() if o not in vars_of(j)} if isinstance(v, dict) else v)
                 for k, v in x.items() if o not in vars_of(k)}
        for k in list(x):
            if isinstance(x[k], dict):
                x[k] = {j: w for j, w in x[k].items() if r.random() < .8}
            if x[k] == {} or r.random() < .2:
                del x[k]
        there = objects({k: v for k, v in x.items() if not isinstance(k, tuple)})
        x = {k: v for k, v in x.items() if not (isinstance(k, tuple) and vars_of(k) - there)}

        def prune(c):
            return {k: v for k, v in ((k, prune(v) if isinstance(v, dict) else v) for k, v in c.items()) if v != {}}
        x = prune(x)
        if x or r.random() < .1:
            return x


def _scat(r, s, prof, log):
    x = sprobe(r, prof, 2)
    log.append("categorize %r" % (x,))
    tell(s.meta, s.tree, x)
    s.ask("scat", lambda: {"x": term(x, project.dec), "rattrs": [terms.enc(a) for a in s.tree.root.av_counts],
                           "ret": s.tree.categorize(copy.deepcopy(x)).concept_id})


def _sinf(r, s, prof, log):
    x = sprobe(r, prof, 2)
    fn, none = r.choice(["most likely", "m", "sampled", "s"]), r.random() < .5
    log.append("infer %r %s %s" % (x, fn, none))

    def ask():
        rattrs = [terms.enc(a) for a in s.tree.root.av_counts]
        res = s.tree.infer_missing(copy.deepcopy(x), fn, none)
        tell(s.meta, s.tree, x, res)
        return {"x": term(x, project.dec), "rattrs": rattrs, "fn": fn[0], "none": none, "res": given_as_is(res, x)}
    s.ask("sinf", ask)


def given_as_is(res, x):
    """The result: what was given as decimals, what was predicted as doubles."""
    out = []
    for k, v in res.items():
        g = x.get(k) if isinstance(x, dict) else None
        if isinstance(v, dict):
            t = given_as_is(v, g if isinstance(g, dict) else {})
        elif project.is_num(v):
            t = {"v": {"num": project.dec(v) if project.is_num(g) and g == v else project.log_float(v)}}
        else:
            t = {"v": {"nom": project.nom(v, "trestle")}}
        out.append([terms.enc(k), t])
    return {"d": out}


def struct_sessions(run, prop, n, query):
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(n):
        r = gen.rng_for(run.seed, prop + "struct", i)
        cfg = record.config(r, "trestle")
        s = record.Session(cfg, meta, r.random())
        prof = gen_struct.StructProfile(r, maxobj=r.choice([1, 2, 2, 3]))
        log = []
        for k in range(r.randint(0 if i % 12 == 0 else 1, 8)):
            x = prof.draw()
            log.append("fit %r" % (x,))
            s.fit(x)
            if not s.dead and r.random() < .25:
                query(r, s, prof, log)
            if s.dead:
                break
        for _ in range(2):
            if not s.dead:
                query(r, s, prof, log)
        traces.append(s.trace())
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceQuery", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"%s"' % prop}),
          traces, inputs, meta)
    run.extra["structured_queries"] = sum(1 for t in traces for e in t["ev"] if e["op"] not in ("fit", "clear"))


class FromRoot:
    """Flattened instances over the attributes of a structured tree."""

    def __init__(self, r, s):
        self.r, self.av = r, s.tree.root.av_counts
        self.nom = [a for a in self.av if CV not in self.av[a]]
        self.num = [a for a in self.av if CV in self.av[a]]
        self.hid = []

    def draw(self):
        out = {}
        for a, vals in self.av.items():
            if self.r.random() < .5:
                v = self.r.choice(sorted(vals, key=repr))
                out[a] = round(self.r.uniform(0, 5), 1) if v == CV else v
        return out


def _scu(r, s, prof, log):
    _cu(r, s, FromRoot(r, s), log)


class Small:
    """Probes over the domain of the enumerated histories."""
    nom, num, hid = ["a", "b"], ["x", "y"], ["_h"]

    def __init__(self, r):
        self.r = r

    def draw(self):
        pick = {"a": ["1", "2"], "b": ["1", "2"], "x": [0, 1, 2.5, "s", 40], "y": [-2, 0, 7], "_h": ["1", "2"]}
        return {a: self.r.choice(pick[a]) for a in self.r.sample(sorted(pick), self.r.randint(1, 3))}


def _run(run, prop, query, kinds, n, length, fits=4, **kw):
    mc_cobweb(run, run.pick(fits, fits + 1))
    traces, inputs, meta = sessions(run, prop, run.pick(*n), length, kinds, query, **kw)

    def then(r, s, log):
        if r.random() < .8:
            query(r, s, Small(r), log)
    short, what = replay(run, prop, run.pick([(3, 60)], [(3, None), (4, 400), (5, 200)]), meta, then, kinds)
    traces, inputs = traces + short, inputs + what
    judge(run, "TraceQuery", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"%s"' % prop}),
          traces, inputs, meta)
    run.extra["queries"] = sum(1 for t in traces for e in t["ev"] if e["op"] not in ("fit", "clear"))


def c05(run):
    _run(run, "C05", _cu, FLAT, (180, 1800), 16)
    struct_sessions(run, "C05", run.pick(40, 400), _scu)


def c07(run):
    _run(run, "C07", _cat, FLAT, (260, 2600), 16)
    struct_sessions(run, "C07", run.pick(60, 900), _scat)


def c08(run):
    _run(run, "C08", _nom, FLAT, (230, 2300), 16)
    struct_sessions(run, "C08", run.pick(50, 500), _nom)


def c09(run):
    _run(run, "C09", _num, ["cobweb3", "cobweb3", "trestle"], (230, 2300), 16)
    struct_sessions(run, "C09", run.pick(50, 500), _num)


def c10(run):
    _run(run, "C10", _inf, FLAT, (260, 2600), 16)
    struct_sessions(run, "C10", run.pick(60, 900), _sinf)
