"""C24, C25, C26: clusterings, their scores and depth labels."""
import copy
import random

import gen
import gen_struct
import project
import record
import tlc
from c_tree import judge

from concept_formation import cluster

HEUR = {"CU": cluster.CU, "AIC": cluster.AIC, "AICc": cluster.AICc, "BIC": cluster.BIC}
lf = project.log_float


def ids(labels):
    out = []
    for x in labels:
        x = str(x)
        out.append(int(x[7:]) if x.startswith("Concept") and x[7:].isdigit() else -1)
    return out


def trained(run, r, meta, lo=0, hi=16, deep=False):
    cfg = record.config(r, deep and r.choice(["cobweb3", "trestle"]) or None)
    s = record.Session(cfg, meta, r.random())
    prof = gen_struct.StructProfile(r) if cfg["kind"] == "trestle" and r.random() < .6 else gen.Profile(r, cfg["kind"])
    if deep:
        prof = gen.Steep(r, cfg["kind"])
    log = []
    for _ in range(r.randint(lo, hi)):
        x = prof.draw()
        log.append("ifit %r" % (x,))
        s.tree.ifit(x)
    return cfg, s, prof, log


def custom(salt):
    """A user-supplied heuristic: any function of the labelling."""
    def h(clusters, leaves):
        key = ",".join(str(c.concept_id % 7) for c in clusters)
        return random.Random("%s/%s" % (salt, key)).randint(0, 6) / 2
    return h


def spied(r, s, fn, want, hs, lls):
    """A heuristic that records the hierarchy, the leaves and the values it is asked for."""
    got = {"post": None, "vals": [], "leaf": []}

    def spy(clusters, leaves):
        if got["post"] is None:
            tt = clusters[0].tree
            got["post"] = project.snapshot(tt, s.kind, s.meta)
            got["scales"] = project.scales(tt, s.meta)
            got["leaf"] = [x.concept_id for x in leaves]
            for _ in range(3 if want == "C25" else 0):
                b = r.choice(leaves)
                a = b
                while a.parent is not None and r.random() < .6:
                    a = a.parent
                lls.append({"a": a.concept_id, "b": b.concept_id, "v": lf(a.log_likelihood(b))})
        v = fn(clusters, leaves)
        lab = [c.concept_id for c in clusters]
        got["vals"].append((lab, v))
        if want == "C25" and len(hs) < 8:
            for n2, f2 in HEUR.items():
                if r.random() < .5:
                    hs.append({"name": n2, "lab": lab, "v": lf(f2(clusters, leaves))})
        return v
    return spy, got


def finish(e, got, seq):
    """Scores as ranks among all scores of the run (exact order), and as numbers."""
    vals = sorted(set([v for _, v in got["vals"]] + [h for _, h in seq]))
    rank = {v: i + 1 for i, v in enumerate(vals)}
    inf = float("inf")
    e["post"], e["scales"], e["leaf"] = got["post"], got["scales"], got["leaf"]
    seen = {}
    for lab, v in got["vals"]:
        seen[tuple(lab)] = v
    e["calls"] = [{"lab": list(k), "rank": rank[v], "inf": v == inf, "v": lf(v)} for k, v in seen.items()]
    e["seq"] = [{"lab": ids(lab), "rank": rank[h], "inf": h == inf, "h": lf(h)} for lab, h in seq]
    return e


def clustering_event(r, s, cfg, prof, log, want):
    t = s.tree
    struct = isinstance(prof, gen_struct.StructProfile)
    mod = r.random() < .5 or t.root.count == 0
    insts = [prof.draw() for _ in range(r.randint(1, 7))]
    if r.random() < .3 and len(insts) > 1:
        insts[-1] = dict(insts[0])
    name = r.choice(["CU", "CU", "AIC", "AICc", "BIC", "custom", "custom"])
    fn = HEUR.get(name) or custom(r.random())
    lo = r.choice([1, 1, 2, 3])
    mx = max(lo, r.choice([1, 2, 3, 100, 100]))
    sd = r.random()
    log.append("cluster %r mod=%r heuristic=%s minsplit=%d maxsplit=%d seed=%r" % (insts, mod, name, lo, mx, sd))
    before = {"post": project.snapshot(t, s.kind, s.meta), "scales": project.scales(t, s.meta)}
    give = [copy.deepcopy(x) for x in insts]
    e = {"heur": name, "mod": mod, "min": lo, "max": mx, "oldroot": t.root.concept_id, "hs": [], "lls": []}
    spy, got = spied(r, s, fn, want, e["hs"], e["lls"])
    random.seed(sd)
    if want == "C25" and r.random() < .6:
        lab = r.random() < .5
        res = cluster.cluster_split_search(t, give, spy, lo, mx, mod, labels=lab, verbose=False)
        if not lab:
            res = ["Concept%d" % c.concept_id if hasattr(c, "concept_id") else c for c in res]
        e["op"] = "search"
        if got["post"] is None:              # nothing was scored: only right when there is nothing to score
            got.update(before, leaf=[])
        finish(e, got, [])
        e["result"] = ids(res)
    else:
        seq = []
        lab = r.random() < .7
        for labels, h in cluster.cluster_iter(t, give, spy, lo, mx, mod, lab):
            seq.append((labels if lab else ["Concept%d" % c.concept_id for c in labels], h))
            if len(seq) > 60:
                break
        e["op"] = "iter"
        if got["post"] is None:
            got.update(before, leaf=[])
        finish(e, got, seq)
        e["ranges"], e["ks"] = [], []
        if want == "C24" and name != "custom" and not (struct and mod):
            hi = r.randint(lo, max(lo, 4))
            random.seed(sd)
            h = r.choice([name, name.lower(), fn])
            seq = list(cluster.cluster_iter(t, give, h, lo, hi, mod))
            e["ranges"].append({"min": lo, "max": hi, "heur": name, "labs": [ids(c) for c, _ in seq],
                                "hs": [] if mod else [project.log_float(v) for _, v in seq]})
        if want == "C24" and not (struct and mod):
            k = r.randint(2, 5)
            random.seed(sd)
            e["ks"].append({"k": k, "lab": ids(cluster.k_cluster(t, give, k, mod))})
            lo2 = r.randint(1, 3)
            hi = r.randint(lo2, 4)
            random.seed(sd)
            e["ranges"].append({"min": lo2, "max": hi, "heur": "CU",
                                "hs": [], "labs": [ids(c) for c in cluster.cluster(t, give, lo2, hi, mod)]})
            random.seed(sd)
            e["ranges"].append({"min": 1, "max": 1, "heur": "CU",
                                "hs": [], "labs": [ids(c) for c in cluster.cluster(t, give, mod=mod)]})
    after = {"post": project.snapshot(t, s.kind, s.meta), "scales": project.scales(t, s.meta)}
    e["untouched"] = before == after
    return e


def depth_event(r, s, cfg, prof, log):
    t = s.tree
    mod = r.random() < .5
    insts = [prof.draw() for _ in range(r.randint(1, 7))]
    sd = r.random()
    log.append("depth_labels %r mod=%r" % (insts, mod))
    before = {"post": project.snapshot(t, s.kind, s.meta), "scales": project.scales(t, s.meta)}
    got = []
    if mod:
        real = t.ifit

        def spy(x, *a, **k):
            c = real(x, *a, **k)
            got.append(c.concept_id)
            return c
        t.ifit = spy
    else:
        real = t.categorize

        def spy2(x, *a, **k):
            c = real(x, *a, **k)
            got.append(c.concept_id)
            return c
        t.categorize = spy2
    random.seed(sd)
    rows = cluster.depth_labels(t, copy.deepcopy(insts), mod)
    for n in ("ifit", "categorize"):
        t.__dict__.pop(n, None)
    post = {"post": project.snapshot(t, s.kind, s.meta), "scales": project.scales(t, s.meta)}
    rows = [ids(x) for x in rows]
    e = {"op": "depth", "rows": rows, "n": len(insts), "mod": mod, "count": project.as_int(before["post"]["nodes"][0]["t"]["count"]),
         "leaf": got if len(got) == len(insts) else rows[-1], "untouched": post == before}
    e.update(post)
    return e


def _run(run, prop, n, make):
    run.model(tlc.model_check("MCClusters", "all hierarchies of <=%d concepts, <=%d instances" % run.pick((6, 3), (7, 4)),
                              tlc.cfg(spec="Spec", constants={"N": str(run.pick(6, 7)), "M": str(run.pick(3, 4))},
                                      invariants=["Cover"], properties=["Refines", "Ends"])))
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(n):
        r = gen.rng_for(run.seed, prop, i)
        ev, log, cfg = [], [], {"kind": "cobweb", "scal": 0, "inner": True}
        try:
            with record.limit(60):
                cfg, s, prof, log = trained(run, r, meta, 0 if i % 8 == 0 else 3, deep=i % 15 == 4)
                for _ in range(2):
                    ev.append(make(r, s, cfg, prof, log))
        except Exception as ex:
            ev.append({"op": "err", "err": record.err_name(ex)})
        traces.append({"cfg": cfg, "ev": ev})
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceCluster", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"%s"' % prop}),
          traces, inputs, meta)


def c24(run):
    _run(run, "C24", run.pick(150, 1500), lambda *a: clustering_event(*a, want="C24"))


def c25(run):
    _run(run, "C25", run.pick(150, 1500), lambda *a: clustering_event(*a, want="C25"))


def c26(run):
    _run(run, "C26", run.pick(300, 3000), depth_event)
