"""C28: exports and visualisations."""
import hashlib
import json
import os
import shutil
import tempfile
import webbrowser

import c_query
import gen
import gen_struct
import project
import record
import tlc
from c_tree import judge

from concept_formation import visualize as viz
from concept_formation.cobweb import CobwebNode
from concept_formation.cobweb3 import Cobweb3Node

CV = project.CV
PKG = os.path.join(os.path.dirname(viz.__file__), "visualization_files")
SUPPORT = ["viz.html", "viz_logic.js", "viz_styling.css"]


def names(tree, kind, meta):
    """How exports spell attributes and values; None if two spell alike."""
    out = {}
    for a, vals in tree.root.av_counts.items():
        if str(a) in out:
            return None
        spell = {str(v): project.nom(v, kind) for v in vals if not (kind != "cobweb" and v == CV)}
        if len(spell) != len([v for v in vals if not (kind != "cobweb" and v == CV)]):
            return None
        for v in vals:      # equal numbers may be spelt differently in different concepts
            if project.is_num(v):
                for t in {str(float(v)), str(int(v)) if float(v) == int(v) else str(v)}:
                    if spell.setdefault(t, project.nom(v, kind)) != project.nom(v, kind):
                        return None
        out[str(a)] = (meta.add(a), spell)
    return out


def read(j, sp, kind):
    """An export as the specification reads it."""
    lf = project.log_float
    nom, num = {}, {}
    for a, vals in j["counts"].items():
        k, spell = sp.get(a, ("?" + a, {}))
        if not vals:
            nom[k] = {}
        for v, c in vals.items():
            if kind != "cobweb" and v == CV:
                num[k] = {"n": project.as_int(c["n"]), "mean": lf(c["mean"]), "std": lf(c["std"])}
            else:
                nom.setdefault(k, {})[spell.get(v, "?" + v)] = project.as_int(c)
    return {"name": j["name"], "size": project.as_int(j["size"]), "guid": repr(j["guid"]) if "guid" in j else "",
            "nom": nom, "num": num, "kids": [read(c, sp, kind) for c in j["children"]]}


def sha(path):
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def above(n):
    return [] if n.parent is None else [n.parent] + above(n.parent)


def export(r, s, sp, log):
    node = r.choice(s.nodes())
    log.append("export concept %d" % node.concept_id)
    before = project.snapshot(s.tree, s.kind, s.meta)
    j = node.output_json()
    j = json.loads(json.dumps(j)) if r.random() < .5 else j
    return {"op": "export", "post": before, "node": node.concept_id, "j": read(j, sp, s.kind),
            "same": before == project.snapshot(s.tree, s.kind, s.meta)}


def show(r, s, sp, log, scratch):
    dst = os.path.join(scratch, r.choice(["a", "b"]))
    os.makedirs(dst, exist_ok=True)
    mine = r.random() < .3
    if mine:
        for f in r.sample(SUPPORT, r.randint(1, 3)):
            with open(os.path.join(dst, f), "w") as o:
                o.write("mine %s" % r.random())
    if r.random() < .2:
        with open(os.path.join(dst, "notes.txt"), "w") as o:
            o.write("keep")
    already = sorted(os.listdir(dst))
    old = {f: sha(os.path.join(dst, f)) for f in SUPPORT + ["notes.txt"]}
    before = project.snapshot(s.tree, s.kind, s.meta)
    pkg = {f: sha(os.path.join(PKG, f)) for f in os.listdir(PKG)}
    kept = {f: open(os.path.join(PKG, f), "rb").read() for f in os.listdir(PKG)}
    others = {p: sorted(os.listdir(p)) for p in (scratch, os.getcwd())}
    nodes = s.nodes()
    view = r.choice(["all", "cut", "clusters"])
    cuts = r.choice([0, 1, 1, 2, 3, 4, 6, 9])
    if max(n.depth() for n in nodes) > 5 and r.random() < .5:
        view, cuts = "cut", r.randint(3, 8)
    some = r.sample(nodes, r.randint(1, min(len(nodes), 4)))
    recreate = r.random() < .6
    if r.random() < .6:     # a name that begins the name of a concept elsewhere
        pre = [n for n in nodes for m in nodes if m.children and m is not n and
               str(m.concept_id).startswith(str(n.concept_id)) and n not in above(m)]
        if pre:
            some, view = [r.choice(pre)], "clusters"
    cnames = sorted({"Concept%d" % n.concept_id for n in some})
    log.append("show %s cuts %d clusters %s recreate %s" % (view, cuts, cnames, recreate))
    opened = []
    keep = webbrowser.open
    webbrowser.open = lambda url, *a, **k: opened.append(url) or True
    kw = {"dst": dst}
    if not recreate or r.random() < .5:
        kw["recreate_html"] = recreate
    try:
        if view == "all":
            viz.visualize(s.tree, **kw)
        elif view == "cut":
            if cuts == 1 and r.random() < .5:
                viz.visualize_no_leaves(s.tree, **kw)
            else:
                viz.visualize_no_leaves(s.tree, cuts, **kw)
        else:
            viz.visualize_clusters(s.tree, some if r.random() < .5 else cnames, **kw)
    finally:
        webbrowser.open = keep
    with open(os.path.join(dst, "output.js")) as f:
        text = f.read()
    full = read(s.tree.root.output_json(), sp, s.kind)
    e = {"op": "view", "view": view, "cuts": cuts, "names": cnames, "post": before, "full": full,
         "files": sorted(os.listdir(dst)), "already": already,
         "contained": pkg == {f: sha(os.path.join(PKG, f)) for f in os.listdir(PKG)} and
         others == {p: sorted(os.listdir(p)) for p in (scratch, os.getcwd())},
         "opened": opened == ["file://" + os.path.realpath(os.path.join(dst, "viz.html"))],
         "same": before == project.snapshot(s.tree, s.kind, s.meta)}
    a, b = "(function (){ window.trestle_output=", "; })();"
    try:
        e["j"] = read(json.loads(text[len(a):-len(b)]), sp, s.kind)
        e["parsed"] = text.startswith(a) and text.endswith(b)
    except Exception:
        e["j"], e["parsed"] = full, False
    if not e["contained"]:
        for f, data in kept.items():
            if sha(os.path.join(PKG, f)) != pkg[f]:
                with open(os.path.join(PKG, f), "wb") as o:
                    o.write(data)
        for f in set(os.listdir(PKG)) - set(kept):
            os.remove(os.path.join(PKG, f))
    made = recreate or "viz.html" not in already
    # a folder with a page but without its scripts is the caller's own
    e["support"] = (all(sha(os.path.join(dst, f)) == (pkg[f] if made else old[f]) for f in SUPPORT) and
                    sha(os.path.join(dst, "notes.txt")) == old["notes.txt"])
    if not made:
        e["already"] = sorted(set(already) | {f for f in SUPPORT})
        e["files"] = sorted(set(e["files"]) | {f for f in SUPPORT})
    return e


def by_hand(r, s, log):
    """Concepts are split, merged or turned round by hand."""
    inner = [n for n in s.nodes() if n.children]
    for n in r.sample(inner, min(len(inner), r.randint(1, 3))):
        below = [c for c in n.children if c.children]
        if below and r.random() < .6:
            c = r.choice(below)
            n.split(c)
            log.append("split concept %d" % c.concept_id)
        elif len(n.children) > 2:
            a, b = r.sample(n.children, 2)
            n.merge(a, b)
            log.append("merge concepts %d and %d" % (a.concept_id, b.concept_id))
        else:
            n.children.reverse()
            log.append("the children of %d in reverse order" % n.concept_id)


def c28(run):
    run.model(tlc.model_check("MCViews", "every hierarchy of %d concepts" % run.pick(5, 7), tlc.cfg(
        spec="Spec", constants={"MaxNodes": str(run.pick(5, 7))},
        invariants=["Whole", "CutLaw", "CutsLaw", "TrimLaw", "TrimAll"])))
    meta = project.Meta()
    traces, inputs = [], []
    i = 0
    while len(traces) < run.pick(150, 1500):
        r = gen.rng_for(run.seed, "C28", i)
        i += 1
        cfg = record.config(r, r.choice(["cobweb", "cobweb3", "cobweb3", "trestle"]))
        CobwebNode._counter = Cobweb3Node._counter = 0     # short names, beginning others
        s = record.Session(cfg, meta, r.random())
        struct = cfg["kind"] == "trestle" and r.random() < .5
        prof = gen_struct.StructProfile(r) if struct else gen.Profile(r, cfg["kind"])
        if i % 8 == 1 and not struct and cfg["kind"] != "cobweb":
            prof = gen.Steep(r, cfg["kind"])
        log, evs = [], []
        scratch = tempfile.mkdtemp(prefix="verif-view-")
        try:
            with record.limit(60):
                skip = False
                for part in range(r.randint(1, 3)):
                    long = part == 0 and i % 8 == 1 and not struct
                    for _ in range(r.randint(30, 45) if long else r.randint(12, 22) if i % 4 == 2 else r.randint(0, 7)):
                        x = prof.draw()
                        log.append("ifit %r" % (x,))
                        s.tree.ifit(x)
                    sp = names(s.tree, s.kind, meta)
                    if sp is None:
                        skip = True
                        break
                    for again in range(2):
                        if again and r.random() < .5:
                            by_hand(r, s, log)
                            sp = names(s.tree, s.kind, meta)
                            if sp is None:
                                skip = True
                                break
                        evs.append(export(r, s, sp, log) if r.random() < .4 else show(r, s, sp, log, scratch))
                if skip and not evs:
                    continue
        except Exception as ex:
            evs.append({"op": "err", "err": record.err_name(ex)})
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        traces.append({"cfg": cfg, "ev": evs})
        inputs.append({"cfg": cfg, "ops": log})
    judge(run, "TraceView", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta"}), traces, inputs, meta)
    run.extra["views"] = sum(len(t["ev"]) for t in traces)
