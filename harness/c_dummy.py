"""C30: the dummy baseline."""
import copy

import c_query
import gen
import gen_struct
import project
import record
import tlc
from c_map import as_term, contents, enc
from c_tree import judge

from concept_formation.dummy import DummyTree

CFG = {"kind": "trestle", "scal": 5000, "inner": True}


def session(meta, r):
    s = record.Session(CFG, meta, r.random())
    s.tree = DummyTree()
    s.first = s.tree.root.concept_id
    return s


def alone(tree, *concepts):
    root = tree.root
    return (root.children == [] and root.parent is None and root.tree is tree and root.num_concepts() == 1
            and all(c is root for c in concepts))


def fit(r, tree, x, log):
    do = r.choice([None, False, True])
    log.append("ifit %r mapping %s" % (x, do))
    keep = copy.deepcopy(x)
    before = (tree.root.count, copy.deepcopy(tree.root.av_counts))
    ret = tree.ifit(x) if do is None else tree.ifit(x, do_mapping=do)
    got = record.root_delta(before, tree)
    e = {"op": "dummy", "map": bool(do), "in": enc(keep), "out": as_term(got, False),
         "gained": project.as_int(tree.root.count - before[0]), "same": repr(x) == repr(keep),
         "one": alone(tree, ret, tree.categorize(x))}
    for c in e["in"]["d"]:
        contents(c)
    return e


def paths(a):
    """Relations whose arguments are paths have more than one flat form."""
    return isinstance(a, tuple) and any(isinstance(e, tuple) for e in a)


def c30(run):
    run.model(tlc.model_check("MCTerms", "every struct instance of size %d" % run.pick(0, 1), tlc.cfg(
        spec="MCSpec", constants={"Family": '"struct"', "Size": str(run.pick(0, 1))},
        invariants=["FlatLaw", "SubLaw", "FlatKeys", "RenLaw"])))
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(100, 1000)):
        r = gen.rng_for(run.seed, "C30s", i)
        log, evs = [], []
        try:
            with record.limit(60):
                t = DummyTree()
                prof = gen_struct.StructProfile(r)
                for _ in range(r.randint(1, 9)):
                    if r.random() < .08:
                        t.clear()
                        log.append("clear")
                    x = {k: v for k, v in prof.draw().items() if not paths(k)} or {"kind": "k1"}
                    evs.append(fit(r, t, x, log))
        except Exception as ex:
            evs.append({"op": "err", "err": record.err_name(ex)})
        traces.append({"cfg": CFG, "ev": evs})
        inputs.append({"cfg": CFG, "ops": log})
    judge(run, "TraceMap", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"C30"'}), traces, inputs, meta)
    meta = project.Meta()
    traces, inputs = [], []
    for i in range(run.pick(120, 1200)):
        r = gen.rng_for(run.seed, "C30f", i)
        s = session(meta, r)
        log = []
        struct = r.random() < .3
        prof = gen_struct.StructProfile(r) if struct else c_query.flat_profile(r, "trestle")
        asks = [c_query._cu, c_query._nom, c_query._num] + ([] if struct else [c_query._cat, c_query._inf])
        for _ in range(r.randint(0, 9)):
            if r.random() < .07:
                s.clear()
                log.append("clear")
            x = prof.draw()
            if i % 15 == 4 and not struct:      # many attributes
                x.update(("w%d" % r.randint(0, 400), r.choice("uv")) for _ in range(40))
            log.append("fit %r" % (x,))
            s.fit(x)
            if not s.dead and r.random() < .3:
                ask(r, s, prof, log, asks, struct)
            if s.dead:
                break
        for _ in range(3):
            if not s.dead:
                ask(r, s, prof, log, asks, struct)
        traces.append(s.trace())
        inputs.append({"cfg": CFG, "ops": log})
    judge(run, "TraceQuery", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"C30"'}), traces, inputs, meta)


class Flat:
    """Flat probes for a tree of structured instances."""
    def __init__(self, r, tree):
        self.r, self.nom, self.num = r, [], []
        self.av = tree.root.av_counts

    def draw(self):
        out = {}
        for a, vals in self.av.items():
            v = self.r.choice(list(vals))
            out[a] = 1.5 if v == project.CV else v
        return out


def ask(r, s, prof, log, asks, struct):
    r.choice(asks)(r, s, Flat(r, s.tree) if struct else prof, log)
