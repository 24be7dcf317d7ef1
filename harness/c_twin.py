"""C06, C13, C14, C15: steps that change nothing, histories that agree."""
import contextlib
import copy
import io
import os
import random
import shutil
import tempfile

import gen
import gen_struct
import project
import record
import tlc
from c_query import probe
from c_tree import judge, mc_cobweb, MC

from concept_formation import cluster, evaluation, preprocessor, visualize

CFG = tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta"})


def freeze(x):
    """A text that is equal exactly for equal values (up to dict order)."""
    if isinstance(x, dict):
        return "{" + ",".join(sorted("%s:%s" % (freeze(k), freeze(v)) for k, v in x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "(" + ",".join(freeze(v) for v in x) + ")"
    if isinstance(x, (set, frozenset)):
        return "set(" + ",".join(sorted(freeze(v) for v in x)) + ")"
    if type(x).__repr__ is object.__repr__:
        return type(x).__name__
    return type(x).__name__ + repr(x)


def full_state(s):
    return {"post": project.snapshot(s.tree, s.kind, s.meta), "scales": project.scales(s.tree, s.meta)}


# ------------------------------------------------------------------- C06
def queries(r, s, prof, x, scratch):
    """(name, argument, function) triples for every kind of query."""
    t = s.tree
    nodes = s.nodes()
    node = r.choice(nodes)
    inner = [n for n in nodes if n.children]
    leaves = [n for n in nodes if not n.children]
    attrs = list(t.root.av_counts) + ["unknown"]
    attr = r.choice(attrs)
    flat = project_flat(s, x)
    insts = [prof.draw() for _ in range(r.randint(1, 4))]
    heur = r.choice([cluster.CU, cluster.AIC, cluster.AICc, cluster.BIC])
    val = r.choice([None, "1", 3, 2.5])
    target = dict(x)
    tattr = r.choice(list(x)) if x else "a"
    out = [
        ("categorize", x, lambda: t.categorize(x)),
        ("infer_missing", x, lambda: t.infer_missing(x, r.choice(["m", "s"]), r.random() < .5)),
        ("predict", None, lambda: node.predict(attr, r.choice(["m", "s"]), r.random() < .5)),
        ("probability", None, lambda: node.probability(attr, val)),
        ("get_weighted_values", None, lambda: node.get_weighted_values(attr)),
        ("expected_correct_guesses", None, lambda: node.expected_correct_guesses()),
        ("category_utility", None, lambda: node.category_utility()),
        ("cu_for_fringe_split", flat, lambda: node.cu_for_fringe_split(flat)),
        ("is_exact_match", flat, lambda: node.is_exact_match(flat)),
        ("log_likelihood", None, lambda: t.root.log_likelihood(r.choice(leaves))),
        ("depth", None, lambda: node.depth()),
        ("num_concepts", None, lambda: node.num_concepts()),
        ("is_parent", None, lambda: node.is_parent(r.choice(nodes))),
        ("str", None, lambda: (str(t), str(node), node.pretty_print(), hash(node))),
        ("output_json", None, lambda: t.root.output_json()),
        ("attrs", None, lambda: (list(node.attrs()), list(node.attrs("all")))),
        ("shallow_copy", None, lambda: node.shallow_copy().increment_counts(flat)),
        ("cluster(mod=False)", insts, lambda: cluster.cluster(t, insts, 1, r.randint(1, 3), mod=False)),
        ("cluster_iter(mod=False)", insts, lambda: list(cluster.cluster_iter(t, insts, heur, 1, 4, mod=False))),
        ("k_cluster(mod=False)", insts, lambda: cluster.k_cluster(t, insts, r.randint(2, 4), mod=False)),
        ("cluster_split_search(mod=False)", insts,
         lambda: cluster.cluster_split_search(t, insts, heur, 1, 3, mod=False, verbose=False)),
        ("depth_labels(mod=False)", insts, lambda: cluster.depth_labels(t, insts, mod=False)),
        ("evaluation.probability", target, lambda: evaluation.probability(t, target, tattr, target[tattr])),
        ("evaluation.error", target, lambda: evaluation.error(t, target, tattr, target[tattr])),
        ("evaluation.absolute_error", target, lambda: evaluation.absolute_error(t, target, tattr, target[tattr])),
        ("evaluation.squared_error", target, lambda: evaluation.squared_error(t, target, tattr, target[tattr])),
        ("visualize", None, lambda: visualize.visualize(t, dst=scratch)),
        ("visualize_no_leaves", None, lambda: visualize.visualize_no_leaves(t, r.randint(1, 2), dst=scratch)),
        ("visualize_clusters", None, lambda: visualize.visualize_clusters(
            t, [r.choice(nodes).concept_id], dst=scratch)),
    ]
    if inner:
        n = r.choice(inner)
        c, d = r.sample(n.children, 2) if len(n.children) > 1 else (n.children[0], n.children[0])
        out += [
            ("two_best_children", flat, lambda: n.two_best_children(flat)),
            ("cu_for_insert", flat, lambda: n.cu_for_insert(c, flat)),
            ("relative_cu_for_insert", flat, lambda: n.relative_cu_for_insert(c, flat)),
            ("compute_relative_CU_const", flat, lambda: n.compute_relative_CU_const(flat)),
            ("cu_for_new_child", flat, lambda: n.cu_for_new_child(flat)),
            ("cu_for_merge", flat, lambda: n.cu_for_merge(c, d, flat)),
            ("cu_for_split", None, lambda: n.cu_for_split(c)),
            ("get_best_operation", flat, lambda: n.get_best_operation(flat, c, d, 0)),
        ]
    r.shuffle(out)
    return out


def project_flat(s, x):
    return {a: v for a, v in x.items() if not isinstance(v, dict)}


PREP = [
    ("NameStandardizer", lambda: preprocessor.NameStandardizer()),
    ("Flattener", lambda: preprocessor.Flattener()),
    ("SubComponentProcessor", lambda: preprocessor.SubComponentProcessor()),
    ("ExtractListElements", lambda: preprocessor.ExtractListElements()),
    ("ListProcessor", lambda: preprocessor.ListProcessor()),
    ("Tuplizer", lambda: preprocessor.Tuplizer()),
    ("NumericToNominal", lambda: preprocessor.NumericToNominal()),
    ("NominalToNumeric", lambda: preprocessor.NominalToNumeric("drop")),
    ("NominalToNumeric", lambda: preprocessor.NominalToNumeric("zero", "num")),
    ("ObjectVariablizer", lambda: preprocessor.ObjectVariablizer()),
    ("Sanitizer", lambda: preprocessor.Sanitizer("trestle")),
    ("Sanitizer", lambda: preprocessor.Sanitizer("cobweb3")),
    ("Pipeline", lambda: preprocessor.Pipeline(preprocessor.NameStandardizer(), preprocessor.Flattener(),
                                               preprocessor.SubComponentProcessor())),
]


def list_instance(r):
    x = gen_struct.StructProfile(r).draw()
    x["items"] = [r.choice(["a", "b", "c", 1, 2.5]) for _ in range(r.randint(0, 3))]
    if r.random() < .4:
        x["boxes"] = [{"w": str(i), "shape": "sq"} for i in range(r.randint(1, 2))]
        if r.random() < .5:
            x["boxes"][0]["near"] = "?p"
        if r.random() < .5:
            x["boxes"].append({"?in": {"w": "1", "l": [1, 2]}, "tags": ["x", {"w": "?p"}]})
    if r.random() < .4:
        x["(near p q)"] = True
    if r.random() < .4:
        x["num"] = r.choice(["3", "x", 3.5])
    return x


def quiet(f):
    """Run a query; what it returns or raises is not this property's business."""
    try:
        with record.limit(), contextlib.redirect_stdout(io.StringIO()):
            return f()
    except record.Hang:
        raise
    except Exception:
        return None


def c06(run):
    import webbrowser
    webbrowser.open = lambda *a, **k: True
    mc_cobweb(run, run.pick(3, 5))
    meta = project.Meta()
    traces, inputs = [], []
    scratch = tempfile.mkdtemp(prefix="verif-c06-")
    try:
        for i in range(run.pick(110, 900)):
            r = gen.rng_for(run.seed, "c06", i)
            cfg = record.config(r)
            s = record.Session(cfg, meta, r.random())
            prof = gen_struct.StructProfile(r) if cfg["kind"] == "trestle" and r.random() < .7 \
                else gen.Profile(r, cfg["kind"])
            ev, log = [dict(op="state", before="", after="", **full_state(s))], []
            for _ in range(r.randint(0 if i % 10 == 0 else 2, 12)):
                x = prof.draw()
                log.append("fit %r" % (x,))
                b = freeze(x)
                try:
                    s.tree.ifit(x)
                except Exception as ex:
                    ev.append({"op": "err", "err": record.err_name(ex)})
                    break
                ev.append(dict(op="fit", before=b, after=freeze(x), **full_state(s)))
            probe = prof.draw()
            if i % 4 == 2:                      # an instance that is refused is left alone as well
                probe[r.choice(["zz", "aa", "color"])] = r.choice([None, [1], {1}, NoHash()])
            for name, arg, f in queries(r, s, prof, probe, scratch)[:40 if i % 4 == 2 else run.pick(16, 40)]:
                b = freeze(arg)
                quiet(f)
                log.append("%s %r" % (name, arg))
                ev.append(dict(op="query", what=name, before=b, after=freeze(arg), **full_state(s)))
            for k in range(6):                  # parts of instances, down to nothing, one kind of value
                x = prof.draw()
                keep = r.choice([lambda v: True, lambda v: project.is_num(v), lambda v: isinstance(v, str),
                                 lambda v: r.random() < .5])
                x = {a: v for a, v in x.items() if keep(v)}
                b = freeze(x)
                tattr = r.choice(list(x) or ["a"])
                for name, f in (("infer_missing", lambda: s.tree.infer_missing(x, r.choice(["m", "s"]), r.random() < .7)),
                                ("categorize", lambda: s.tree.categorize(x)),
                                ("evaluation.error", lambda: evaluation.error(s.tree, x, tattr, x.get(tattr))),
                                ("evaluation.probability", lambda: evaluation.probability(s.tree, x, tattr, x.get(tattr)))):
                    quiet(f)
                    ev.append({"op": "arg", "what": name, "before": b, "after": freeze(x)})
                log.append("ask about %s" % (b,))
            ev.append(dict(op="query", what="several", before="", after="", **full_state(s)))
            traces.append({"ev": ev})
            inputs.append({"cfg": cfg, "ops": log})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for i in range(run.pick(120, 800)):
        r = gen.rng_for(run.seed, "c06p", i)
        ev, log = [], []
        for name, mk in PREP:
            x = list_instance(r)
            if name == "Sanitizer":
                for _ in range(r.randint(1, 2)):
                    r.choice([x] + [v for v in x.values() if isinstance(v, dict)])[r.choice(["s", "o"])] = r.choice(
                        [{1}, {"a", "b"}, [1, [2]], None, bytearray(b"x"), {"in": {"er": {2.5}}}])
            b = freeze(x)
            p = mk()
            y = quiet(lambda: p.transform(x))
            ev.append({"op": "arg", "what": name + ".transform", "before": b, "after": freeze(x)})
            log.append("%s %s" % (name, b))
            if y is not None:
                b = freeze(y)
                quiet(lambda: p.undo_transform(y))
                ev.append({"op": "arg", "what": name + ".undo_transform", "before": b, "after": freeze(y)})
        # evaluation over a list must not touch the instances
        prof = gen.Profile(r, "cobweb3")
        insts = [prof.draw() for _ in range(3)]
        a = r.choice(sorted({k for x in insts for k in x}, key=repr) or ["a"])
        b = freeze(insts)
        score = r.choice([evaluation.probability, evaluation.error, evaluation.absolute_error])
        quiet(lambda: evaluation.incremental_evaluation(
            record.make_tree({"kind": "cobweb3", "scal": 5000, "inner": True}), list(insts), a, 3, 2, score))
        ev.append({"op": "arg", "what": "incremental_evaluation", "before": b, "after": freeze(insts)})
        traces.append({"ev": ev})
        inputs.append({"ops": log})
    judge(run, "TraceTwin", CFG, traces, inputs, meta)
    run.extra["queries"] = sum(1 for t in traces for e in t["ev"] if e["op"] in ("query", "arg"))


# ------------------------------------------------------------------- C13
def hide(r, x, kind, names, parts=False):
    """The same instance with other hidden attributes; visible ones keep their
    relative order, hidden ones of components come last."""
    vis = [(a, v) for a, v in x.items() if a[0] != "_"]
    out = []
    for a, v in vis:
        if isinstance(v, dict):
            v = hide(r, v, "comp", names)
        out.append((a, v))
    k = min(r.randint(0, 2), len(names))
    for n in r.sample(names, k):
        v = r.choice(["g1", "g2", "g3", True, 4, 2.5]) if kind in ("cobweb3", "trestle", "comp") else r.choice(["g1", "g2"])
        pos = len(out) if kind in ("comp", "trestle") else r.randint(0, len(out))
        out.insert(pos, (n, v))
    if parts and r.random() < .3:
        out.append(("_meta", {"shape": r.choice(["sq", "tri"]), "x": r.choice([-50, 2.5, 99]), "_n": r.choice(["g1", 3])}
                    if r.random() < .6 else {"tower": {"shape": "sq", "x": 7.5}}))
    if parts and r.random() < .3:
        out.append((("_", r.choice(["on", "seen"]), "kind", "tower"), r.choice([True, 77.5, "no"])))
    return dict(out)


def preorder(tree):
    out, stack = {}, [tree.root]
    while stack:
        n = stack.pop()
        out[n.concept_id] = len(out)
        stack.extend(reversed(n.children))
    return out


def c13(run):
    for d in ("nom", "mix"):
        run.model(tlc.model_check("MCCobweb", "hidden attributes inert, %s instances" % d, tlc.cfg(
            spec="MCSpec", constants={"Meta": "<- MetaDef", "MaxFits": str(run.pick(4, 5)), "Domain": "<- " + MC[d]},
            invariants=["HiddenInert"])))
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(160, 1600)):
        r = gen.rng_for(run.seed, "c13", i)
        cfg = record.config(r)
        kind = cfg["kind"]
        struct = kind == "trestle" and r.random() < .6
        prof = gen_struct.StructProfile(r) if struct else gen.Profile(r, kind)
        seen = [a for a in (getattr(prof, "num", None) or ["x", "w", "shape", "kind"]) if isinstance(a, str)]
        names = ["_a", "_guid", "_", r.choice(["__id", "___", "_?x", "_ a"]), "_" + r.choice(seen)] + ([("_", ("h", "p1"))] if kind != "trestle" else [])
        A, B = record.Session(cfg, meta, 1), record.Session(cfg, meta, 1)
        ev, log = [], []
        for _ in range(r.randint(2, 14)):
            x = prof.draw()
            xa, xb = hide(r, x, kind, names, struct), hide(r, x, kind, names, struct)
            if r.random() < .5:
                xb = hide(r, x, kind, [])
            q = prof.draw()
            qa, qb = hide(r, q, kind, names, struct), hide(r, q, kind, names, struct)
            log.append("fit %r / %r; categorize %r / %r" % (xa, xb, qa, qb))
            sd = r.random()

            def run1(s, inst, query):
                random.seed(sd)
                s.tree.ifit(copy.deepcopy(inst))
                random.seed(sd)
                c = s.tree.categorize(copy.deepcopy(query))
                return preorder(s.tree)[c.concept_id]
            try:
                ca, cb = run1(A, xa, qa), run1(B, xb, qb)
                na, nb = A.nodes(), B.nodes()
                e = {"op": "hidden", "flat": not struct, "cata": ca, "catb": cb,
                     "ua": [project.log_float(n.category_utility()) for n in na],
                     "ub": [project.log_float(n.category_utility()) for n in nb],
                     "inst": project.instance(xa if not struct else {}, kind, meta),
                     "a": project.snapshot(A.tree, kind, meta), "b": project.snapshot(B.tree, kind, meta), "preds": []}
                if not struct:
                    for h in names:
                        vals = A.tree.root.av_counts.get(h)
                        if vals and all(not project.is_num(v) and v != project.CV for v in vals):
                            p = A.tree.root.predict(h, "m", False)
                            e["preds"].append({"a": meta.add(h), "v": project.nom(p, kind)})
            except Exception as ex:
                ev.append({"op": "err", "err": record.err_name(ex)})
                break
            ev.append(e)
        traces.append({"ev": ev})
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceTwin", CFG, traces, inputs, meta)


# ------------------------------------------------------------------- C14
class NoHash(object):
    __hash__ = None

    def __repr__(self):
        return "NoHash()"


def spoil(r, x, kind):
    """An invalid instance made from a valid one, and what is wrong with it."""
    x = dict(x)
    ways = ["list value", "dict-free set value", "number attribute", "empty attribute", "None attribute",
            "unhashable object"]
    if kind != "trestle":
        ways += ["None value", "dict value"]
    w = r.choice(ways)
    tgt = r.choice(list(x) + ["zz"])
    if kind == "trestle" and isinstance(tgt, str) and tgt[:1] == "?":
        tgt = "zz"
    bad = {"list value": [1, 2], "dict-free set value": {1}, "unhashable object": NoHash(), "None value": None,
           "dict value": {"a": "b"}}
    if w in bad:
        x[tgt] = bad[w]
    elif w == "number attribute":
        x[r.choice([1, 2.5])] = "v"
    elif w == "empty attribute":
        x[r.choice(["", ()])] = "v"
    else:
        x[None] = "v"
    items = list(x.items())
    r.shuffle(items)
    if r.random() < .1 and kind != "trestle":   # one among many attributes
        items = [("w%d" % k, "v") for k in range(r.randint(30, 80))] + items
    return dict(items), w


def c14(run):
    mc_cobweb(run, run.pick(3, 5))
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(220, 2000)):
        r = gen.rng_for(run.seed, "c14", i)
        cfg = record.config(r)
        kind = cfg["kind"]
        prof = gen_struct.StructProfile(r) if kind == "trestle" and r.random() < .5 else gen.Profile(r, kind)
        A, B = record.Session(cfg, meta, 1), record.Session(cfg, meta, 1)
        ev, log = [dict(op="state", before="", after="", **full_state(A))], []
        for _ in range(r.randint(1, 9)):
            for _ in range(r.randint(0, 2)):
                x, w = spoil(r, prof.draw(), kind)
                call = r.choice(["ifit", "ifit", "categorize", "infer_missing", "fit"])
                log.append("%s %r" % (call, x))
                raised = False
                try:
                    with record.limit():
                        if call == "fit":
                            A.tree.fit([x])
                        else:
                            getattr(A.tree, call)(x)
                except record.Hang:
                    pass
                except Exception:
                    raised = True
                ev.append(dict(op="bad", what="%s, %s" % (call, w), raised=raised, **full_state(A)))
            x = prof.draw()
            sd = r.random()
            log.append("ifit %r" % (x,))
            try:
                for s in (A, B):
                    random.seed(sd)
                    s.tree.ifit(copy.deepcopy(x))
                ev.append(dict(op="state", before="", after="", **full_state(A)))
            except Exception as ex:
                ev.append({"op": "err", "err": record.err_name(ex)})
                break
        if ev[-1]["op"] != "err" and not isinstance(prof, gen_struct.StructProfile):
            a, b = full_state(A), full_state(B)
            ev.append({"op": "twin", "what": "the history continues as if the refused calls had not been made",
                       "a": a["post"], "b": b["post"], "as": a["scales"], "bs": b["scales"]})
        traces.append({"ev": ev})
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceTwin", CFG, traces, inputs, meta)


# ------------------------------------------------------------------- C15
def c15(run):
    mc_cobweb(run, run.pick(4, 5))
    meta = project.Meta()
    traces, inputs = [], []

    def twin(what, A, B):
        a, b = full_state(A), full_state(B)
        return {"op": "twin", "what": what, "a": a["post"], "b": b["post"], "as": a["scales"], "bs": b["scales"]}
    for i in range(run.pick(200, 2000)):
        r = gen.rng_for(run.seed, "c15", i)
        cfg = record.config(r)
        kind = cfg["kind"]
        prof = gen_struct.StructProfile(r) if kind == "trestle" and r.random() < .6 else gen.Profile(r, kind)
        ev, log = [], []
        try:
            with record.limit(60):
                # clear = new
                A = record.Session(cfg, meta, r.random())
                for _ in range(r.randint(0, 8)):
                    x = prof.draw()
                    log.append("ifit %r" % (x,))
                    A.tree.ifit(x)
                    if r.random() < .3:
                        A.tree.categorize(prof.draw())
                log.append("clear")
                A.tree.clear()
                B = record.Session(cfg, meta, 0)
                ev.append(twin("a cleared tree is a new tree", A, B))
                sd = r.random()
                more = [prof.draw() for _ in range(r.randint(1, 7))]
                log.append("fits %r" % (more,))
                for s in (A, B):
                    random.seed(sd)
                    for x in more:
                        s.tree.ifit(copy.deepcopy(x))
                ev.append(twin("a cleared tree learns like a new tree", A, B))
                # batch = repetition
                batch = [dict(prof.draw(), _id="i%d" % k) for k in range(r.randint(0, 6))]
                times, shuffle = r.choice([0, 1, 1, 2, 3, 4]), r.random() < .5
                if r.random() < .2:
                    times, shuffle, kw = 1, True, {}
                else:
                    kw = {"iterations": times, "randomize_first": shuffle}
                C = record.Session(cfg, meta, r.random())
                order = []
                real = C.tree.ifit

                def spy(inst, *a, **k):
                    order.append(inst.get("_id", "?"))
                    return real(inst, *a, **k)
                C.tree.ifit = spy
                if batch and r.random() < .3:       # the same object again
                    batch += r.choices(batch, k=r.randint(1, 2))
                given = r.choice([list, tuple])(batch)
                before = freeze(given)
                log.append("fit(%r, %r)" % (given, kw))
                C.tree.fit(given if r.random() < .7 else (x for x in given), **kw)
                counts = C.tree.root.av_counts.get("_id", {})
                ev.append({"op": "batch", "ids": [b["_id"] for b in batch],
                           "counts": [{"v": v, "c": project.as_int(c)} for v, c in counts.items()],
                           "times": times if batch else 0, "shuffle": shuffle, "total": project.as_int(C.tree.root.count),
                           "order": order, "before": before, "after": freeze(given)})
                if not batch or times == 0:
                    ev[-1]["ids"], ev[-1]["times"] = [], 0
                if not shuffle and batch:
                    D, E = record.Session(cfg, meta, 1), record.Session(cfg, meta, 1)
                    random.seed(sd)
                    D.tree.fit(copy.deepcopy(batch), iterations=1, randomize_first=False)
                    random.seed(sd)
                    for x in copy.deepcopy(batch):
                        E.tree.ifit(x)
                    ev.append(twin("one pass in the given order is fitting one by one", D, E))
        except Exception as ex:
            ev.append({"op": "err", "err": record.err_name(ex)})
        traces.append({"ev": ev})
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceTwin", CFG, traces, inputs, meta)
