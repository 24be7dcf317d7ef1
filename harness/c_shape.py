"""C33: questions about the shape of a hierarchy."""
import copy

import gen
import project
import record
import c_query
from c_tree import judge
import tlc
from c_query import CV, probe


def exact_cases(r, s, prof):
    out = []
    nodes = s.nodes()
    leaves = [n for n in nodes if not n.children]
    for _ in range(4):
        n = r.choice(leaves if r.random() < .7 else nodes)
        if r.random() < .3:
            x = probe(r, prof, s.kind)
        else:       # the instance the concept holds most of, perhaps disturbed
            x = {}
            for a, vals in n.av_counts.items():
                if not vals or (a[0] == "_" and r.random() < .5):
                    continue
                v = max(vals, key=lambda k: getattr(vals[k], "num", vals[k]))
                x[a] = round(vals[v].mean, 4) if s.kind != "cobweb" and v == CV else v
            if x and r.random() < .3:
                a = r.choice(list(x))
                if r.random() < .5:
                    del x[a]
                else:
                    x[a] = r.choice(["other", 77])
            if r.random() < .15:
                x[r.choice(["unheard", "_unheard"])] = "v"
        # the mean of an inner concept's numbers is rounded: only leaves hold equal numbers exactly
        if n.children and s.kind != "cobweb" and any(CV in v for v in n.av_counts.values()):
            continue
        # a tally of no instance at all has no look
        if n.count:
            out.append({"n": n.concept_id, "inst": project.instance(x, s.kind, s.meta), "v": n.is_exact_match(x) is True})
    return out


def printed(text):
    lines = []
    for ln in text.split("\n"):
        if ln:
            body = ln.lstrip("\t")
            lines.append({"d": len(ln) - len(body), "c": project.as_int(float(body.rsplit(":", 1)[1]))})
    return lines


def mentions(node, text):
    lines = [ln for ln in text.split("\n") if ln]

    def walk(n):
        if not lines:
            return False
        ln = lines.pop(0)
        for a, vals in n.av_counts.items():
            if str(a) not in ln and repr(a) not in ln:
                return False
            for v, c in vals.items():
                if (str(v) not in ln and repr(v) not in ln) or str(c) not in ln and repr(c) not in ln:
                    return False
        return all([walk(c) for c in n.children])
    return walk(node) and not lines


def _shape(r, s, prof, log):
    log.append("questions about the shape")

    def ask():
        nodes = s.nodes()
        some = r.sample(nodes, min(5, len(nodes)))
        other = record.make_tree(s.cfg)
        node = r.choice(nodes)
        twins = [copy.deepcopy(s.tree).root] + list(copy.deepcopy(s.tree).root.children)
        attrs = []
        for n in some:
            want = [a for a in s.tree.root.av_counts if r.random() < .5]
            attrs.append({"n": n.concept_id, "vis": [s.meta.add(a) for a in n.attrs()],
                          "all": [s.meta.add(a) for a in n.attrs("all")], "want": [s.meta.add(a) for a in want],
                          "some": [s.meta.add(a) for a in n.attrs(lambda a: a in want)]})
        top = r.random() < .5
        text = str(s.tree) if top else r.choice([str, lambda n: n.pretty_print()])(node)
        pn = s.tree.root if top else node
        inner = []
        if s.kind != "cobweb":
            inner = [{"a": s.meta.add(a), "v": s.meta.add(s.tree.get_inner_attr(a))} for a in s.tree.root.av_counts]
        pairs = [(r.choice(nodes), r.choice(nodes)) for _ in range(6)]
        pairs += [(n.parent, n) for n in some if n.parent] + [(n, n.parent) for n in some if n.parent]
        marks = {n: n.concept_id for n in nodes}
        return {"post": project.snapshot(s.tree, s.kind, s.meta),
                "depth": [{"n": n.concept_id, "v": n.depth()} for n in some],
                "num": [{"n": n.concept_id, "v": n.num_concepts()} for n in some],
                "isp": [{"a": a.concept_id, "b": b.concept_id, "v": a.is_parent(b)} for a, b in pairs],
                "stranger": node.is_parent(other.root) or node.is_parent(None) or
                any(a.is_parent(b) for a, b in zip(twins, nodes)) or s.tree.root.is_parent(r.choice(twins)),
                "attrs": attrs, "exact": exact_cases(r, s, prof), "lines": printed(text), "pnode": pn.concept_id,
                "mentions": mentions(pn, text), "inner": inner,
                "distinct": len(marks) == len(nodes) and all(marks[n] == n.concept_id for n in nodes)}
    s.ask("shape", ask)


def deepen(r, tree):
    """A concept is put some way further down, concepts with its counts above it."""
    n = tree.root
    while n.children:
        n = r.choice(n.children)
    for _ in range(r.randint(10, 60)):
        up, new = n.parent, n.__class__()
        new.tree = tree
        new.update_counts_from_node(n)
        new.parent, n.parent = up, new
        new.children.append(n)
        if up is None:
            tree.root = new
        else:
            up.children[up.children.index(n)] = new


def c33(run):
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(15, 120)):          # deep hierarchies
        r = gen.rng_for(run.seed, "C33deep", i)
        cfg = record.config(r, ["cobweb", "cobweb3", "trestle"][i % 3])
        s = record.Session(cfg, meta, r.random())
        prof = c_query.flat_profile(r, cfg["kind"])
        xs = [prof.draw() for _ in range(r.randint(1, 8))]
        log = ["fit %r" % (x,) for x in xs] + ["concepts put above a leaf by hand"]
        s.bulk(xs, lambda t: deepen(r, t))
        for _ in range(2):
            if not s.dead:
                _shape(r, s, prof, log)
        traces.append(s.trace())
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceQuery", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"C33"'}), traces, inputs, meta)
    c_query._run(run, "C33", _shape, c_query.FLAT, (200, 2000), 16)
    c_query.struct_sessions(run, "C33", run.pick(50, 500),
                            lambda r, s, prof, log: _shape(r, s, c_query.FromRoot(r, s), log))
