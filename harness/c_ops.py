"""C32: operations on concepts, applied by hand."""
import copy
import random

import gen
import project
import record
import tlc
from c_tree import judge


class Hand(record.Session):
    """A tree built by operations on its concepts; nodes are kept by name."""

    def __init__(self, cfg, meta, seed):
        super().__init__(cfg, meta, seed)
        self.by = {1: self.tree.root}

    def snap(self, root=None):
        return project.snapshot(self.tree, self.kind, self.meta, root=root)

    def do(self, op, n, x=None, a=None, b=None, c=None):
        node = self.by[n]
        given = copy.deepcopy(x)

        def run():
            e = {"n": node.concept_id, "ret": 0, "a": 0, "b": 0}
            makes = op in ("new", "merge", "pushover") or op == "push" and node.count > 0
            ret = None
            if op == "inc":
                node.increment_counts(x)
            elif op == "new":
                ret = node.create_new_child(x)
            elif op in ("push", "pushover"):
                ret = node.create_child_with_current_counts()
            elif op == "merge":
                ret = node.merge(self.by[a], self.by[b])
            elif op == "split":
                e["a"] = self.by[a].concept_id
                node.split(self.by[a])
                del self.by[a]
            elif op == "join":
                node.update_counts_from_node(self.by[a])
            elif op in ("shallow", "copy"):
                k = node.shallow_copy() if op == "shallow" else node.__class__(node)
                e["copy"] = self.snap(k)
                e["par"] = k.parent.concept_id if k.parent is not None else 0
                k.increment_counts(given)
                k.create_new_child(given)
                if len(k.children) > 2:
                    k.merge(k.children[0], k.children[1])
                elif k.children and k.children[0].children:
                    k.split(k.children[0])
                if k.children:
                    k.children[0].increment_counts(given)
            if makes and ret is None:
                raise ValueError("%s returns no concept" % op)
            if ret is not None:
                e["ret"] = ret.concept_id
                self.by[c] = ret
            for key, v in (("a", a), ("b", b)):
                if v in self.by and op != "split":
                    e[key] = self.by[v].concept_id
            if given is not None:
                e["inst"] = project.instance(given, self.kind, self.meta)
                if repr(given) != repr(x):
                    raise ValueError("the instance was modified")
            e["post"] = self.snap()
            return e
        self.ask(op, run)


SMALL = {1: {"a": "1"}, 2: {"a": "2", "x": 3}}


def random_ops(r, s, prof, log, n, wide=0):
    name = 2
    top = list(s.by)[0]
    if wide:                                    # a child with many children, which is then taken apart
        plan = [("new", top, {})] * r.randint(1, 2) + [("new", 2, {})] * wide
        plan += [r.choice([("split", top, {"a": 2}), ("split", top, {"a": 2}), ("shallow", 2, {}), ("copy", 2, {})])]
        for op, k, kw in plan:
            if op != "split":
                kw = {"x": prof.draw()}
            log.append("%s %r %r" % (op, k, kw))
            s.do(op, k, c=name, **kw)
            name += 1
            if s.dead:
                return
    for _ in range(n):
        nodes = [k for k, v in s.by.items()]
        k = r.choice(nodes)
        node = s.by[k]
        kids = [j for j, v in s.by.items() if v in node.children]
        op = r.choice(["inc", "new", "new", "push", "merge", "split", "join", "shallow", "copy"])
        kw = {}
        if op == "merge":
            if len(kids) < 2:
                op = "new"
            else:
                kw["a"], kw["b"] = r.sample(kids, 2)
        if op == "split":
            if not kids:
                op = "inc"
            else:
                kw["a"] = r.choice(kids)
        if op == "join":
            others = [j for j in nodes if j != k]
            if not others:
                op = "inc"
            else:
                kw["a"] = r.choice(others)
        if op == "push" and node.children:
            op = "new"
        if op in ("inc", "new", "shallow", "copy"):
            kw["x"] = prof.draw()
        log.append("%s %r %r" % (op, k, kw))
        s.do(op, k, c=name, **kw)
        name += 1
        if s.dead:
            return
    inner = [k for k, v in s.by.items() if v.children and v.count > 0]
    if inner and r.random() < .4:
        k = r.choice(inner)
        log.append("pushover %r" % k)
        s.do("pushover", k, c=name)


def c32(run):
    ops = run.pick(4, 5)
    hs, m = tlc.generate("MCOps", "every sequence of %d concept operations" % ops, tlc.cfg(
        spec="Spec", constants={"Meta": "<- MetaDef", "MaxOps": str(ops)}, invariants=["Shape"],
        properties=["Reorganises", "Local"]))
    run.model(m)
    run.extra["sequences"] = len(hs)
    hs.sort(key=str)
    r = gen.rng_for(run.seed, "C32", "small")
    most = run.pick(700, 9000)
    hs = r.sample(hs, most) if len(hs) > most else hs
    run.extra["sequences_replayed"] = len(hs)
    meta = project.Meta()
    traces, inputs = [], []
    for h in hs:
        cfg = record.config(r)
        s = Hand(cfg, meta, r.random())
        for o in h:
            s.do(o["op"], o["n"], copy.deepcopy(SMALL.get(o.get("i"))), o.get("a"), o.get("b"), o["c"])
            if s.dead:
                break
        traces.append(s.trace())
        inputs.append({"cfg": cfg, "ops": [repr(o) for o in h]})
    for i in range(run.pick(200, 2000)):
        r = gen.rng_for(run.seed, "C32", i)
        cfg = record.config(r)
        s = Hand(cfg, meta, r.random())
        log = []
        random_ops(r, s, gen.Profile(r, cfg["kind"]), log, r.randint(3, 24), r.choice([9, 10, 12, 15]) if i % 12 == 7 else 0)
        traces.append(s.trace())
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceOps", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta"}), traces, inputs, meta)
    run.extra["operations"] = sum(len(t["ev"]) for t in traces)
