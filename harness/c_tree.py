"""C01, C02, C03, C12: recorded fit/clear histories against ConceptTree."""
import copy

import gen
import project
import record
import tlc

MC = {"nom": "NomDomain", "mix": "MixDomain"}


def mc_cobweb(run, fits, domains=("nom", "mix")):
    for d in domains:
        run.model(tlc.model_check("MCCobweb", "Cobweb machine, %s instances, <=%d fits" % (d, fits), tlc.cfg(
            spec="MCSpec", constants={"Meta": "<- MetaDef", "MaxFits": str(fits), "Domain": "<- " + MC[d]},
            invariants=["Shape", "Conserved", "PureLeaves", "Laminate", "NeverStuck", "CatTotal"],
            properties=["Refines"])))


def histories(run, n, length, tag, clear=.04, kinds=None, long_every=25, long_len=45):
    """Random fit/clear histories on all three kinds of tree."""
    meta = project.Meta()
    out, inputs = [], []
    for i in range(n):
        r = gen.rng_for(run.seed, tag, i)
        cfg = record.config(r, kinds and r.choice(kinds))
        s = record.Session(cfg, meta, r.random())
        if cfg["kind"] == "trestle" and r.random() < .7:
            import gen_struct
            prof = gen_struct.StructProfile(r)
        else:
            prof = gen.Profile(r, cfg["kind"])
        m = r.randint(1, length)
        if long_every and i % long_every == long_every - 1 and cfg["kind"] != "trestle":
            m = long_len
        ins = []
        for _ in range(m):
            if s.ev and r.random() < clear:
                s.clear()
                ins.append("clear")
            else:
                x = prof.draw()
                ins.append(x)
                s.fit(x)
            if not s.dead and r.random() < .25:
                ins.append("queries about the next instance")
                if not look(r, s, prof.draw()):
                    break
            if s.dead:
                break
        out.append(s.trace())
        inputs.append({"cfg": cfg, "ops": [repr(x) for x in ins]})
    return out, inputs, meta


SIZES = {"cobweb": (60, 240), "cobweb3": (50, 160), "trestle": (15, 60)}


def crowds(run, n, tag, meta, kinds=None):
    """Long histories, seen only now and then."""
    out, inputs = [], []
    for i in range(n):
        r = gen.rng_for(run.seed, tag, "crowd", i)
        cfg = record.config(r, kinds and r.choice(kinds))
        s = record.Session(cfg, meta, r.random())
        if cfg["kind"] == "trestle":
            import gen_struct
            prof = gen_struct.StructProfile(r)
        else:
            prof = gen.Crowd(r, cfg["kind"])
        left, ops = r.randint(*SIZES[cfg["kind"]]), []
        while left > 0 and not s.dead:
            m = min(left, r.randint(20, 150))
            left -= m
            xs = [prof.draw() for _ in range(m)]
            ops += [repr(x) for x in xs]
            s.bulk(xs)
            if not s.dead and r.random() < .5:
                x = prof.draw()
                ops.append(repr(x))
                s.fit(x)
        out.append(s.trace())
        inputs.append({"cfg": cfg, "ops": ops})
    run.extra["long_histories"] = len(out)
    run.extra["longest_history"] = max(len(x["ops"]) for x in inputs)
    return out, inputs


def look(r, s, x):
    """Queries between the fits of a history leave no trace in it."""
    t = s.tree
    node = r.choice(s.nodes())
    attr = r.choice(list(t.root.av_counts) + ["unseen"])

    def ask():
        for k in r.sample(range(6), 2):
            if k == 0:
                t.categorize(copy.deepcopy(x))
            elif k == 1:
                t.infer_missing(copy.deepcopy(x), r.choice(["m", "s"]), r.random() < .5)
            elif k == 2:
                node.category_utility()
                node.expected_correct_guesses()
            elif k == 3:
                node.predict(attr, r.choice(["m", "s"]), r.random() < .5)
                node.probability(attr, r.choice([None, 1.5, "v"]) if s.kind != "cobweb" else "v")
            elif k == 4 and not any(isinstance(v, dict) for v in x.values()):
                node.cu_for_fringe_split(x)
                node.cu_for_new_child(x)
                if node.children:
                    node.cu_for_insert(r.choice(node.children), x)
                    node.cu_for_split(r.choice(node.children))
                    node.two_best_children(x)
            elif k == 5:
                str(t), node.depth(), node.output_json()
        return {}
    n = len(s.ev)
    s.ask("look", ask)
    if not s.dead:
        del s.ev[n]
    return not s.dead


def enumerated(run, r, ops, most):
    """Every history of the given length, from the specification (or a sample of them)."""
    out = []
    for d in ("nom", "mix", "hid", "num"):
        hs, m = tlc.generate("MCHist", "every history of %d operations, %s instances" % (ops, d), tlc.cfg(
            spec="Spec", constants={"Domain": '"%s"' % d, "MaxOps": str(ops)}))
        run.model(m)
        hs.sort(key=str)
        run.extra["histories_%s_%d" % (d, ops)] = len(hs)
        if most and len(hs) > most:
            hs = r.sample(hs, most)
        out += [[o if o["op"] == "clear" else instance(o["i"]) for o in h] for h in hs]
    run.extra["histories_replayed"] = run.extra.get("histories_replayed", 0) + len(out)
    return out


def instance(i):
    x = dict(i["nom"] or {})
    x.update({a: float(v) if "." in v else int(v) for a, v in (i["num"] or {}).items()})
    return x


def replay(run, tag, plan, meta, then=None, kinds=None):
    """The enumerated histories on real trees; then(r, s, log) asks at the end."""
    out, inputs = [], []
    r = gen.rng_for(run.seed, tag, "enumerated")
    for ops, most in plan:
        for h in enumerated(run, r, ops, most):
            cfg = record.config(r, kinds and r.choice(kinds))
            s = record.Session(cfg, meta, r.random())
            log = []
            for o in h:
                if o.get("op") == "clear":
                    s.clear()
                    log.append("clear")
                else:
                    s.fit(dict(o))
                    log.append("fit %r" % (o,))
                if s.dead:
                    break
            if then and not s.dead:
                then(r, s, log)
            out.append(s.trace())
            inputs.append({"cfg": cfg, "ops": log})
    return out, inputs


def judge(run, module, cfg_text, traces, inputs, meta, search=False):
    bad, tot = tlc.validate(module, cfg_text, traces, meta=meta, search=search)
    run.validated(tot)
    for i, step, clause in bad:
        w = dict(inputs[i])
        w["failing_step"] = step
        run.report(clause, w)
    for x in inputs[:2]:
        run.sample(x)


def _run(run, prop):
    mc_cobweb(run, run.pick(4, 6))
    traces, inputs, meta = histories(run, run.pick(320, 3000), run.pick(14, 24), "tree")
    short, what = replay(run, prop, run.pick([(3, None)], [(3, None), (4, None), (5, 900)]), meta)
    big, crowd = crowds(run, run.pick(16, 160), prop, meta, prop == "C12" and ["cobweb3"] * 4 + ["trestle"] or None)
    traces, inputs = traces + short + big, inputs + what + crowd
    judge(run, "TraceTree", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"%s"' % prop}),
          traces, inputs, meta)
    run.extra["fits"] = sum(len(t["ev"]) for t in traces)


def c01(run):
    _run(run, "C01")


def c02(run):
    _run(run, "C02")
    traces = []
    n = run.pick(70000, 300000)
    for kind in ("cobweb", "cobweb3", "trestle"):
        t = record.make_tree({"kind": kind, "scal": 5000, "inner": True})
        for k in range(n // 3 if kind == "trestle" else n):
            t.root.create_new_child({"a": "v"})
        traces.append({"ev": [{"op": "ids", "what": "every concept of a very large hierarchy has an id of its own",
                               "ids": [t.root.concept_id] + [c.concept_id for c in t.root.children]}]})
    judge(run, "TraceTwin", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta"}), traces,
          [{"ops": ["%d concepts" % n]}] * 3, project.Meta())


def c03(run):
    _run(run, "C03")


def c12(run):
    _run(run, "C12")
    import c_query

    def use(r, s, prof, log):
        (c_query._num if r.random() < .6 else c_query._cu)(r, s, prof, log)
    traces, inputs, meta = c_query.sessions(run, "C12use", run.pick(90, 900), 14, ["cobweb3", "cobweb3", "trestle"], use,
                                            queries=2)
    judge(run, "TraceQuery", tlc.cfg(spec="TSpec", constants={"Meta": "<- TraceMeta", "Prop": '"C12"'}),
          traces, inputs, meta)
    run.extra["uses_of_scales"] = sum(1 for t in traces for e in t["ev"] if e["op"] not in ("fit", "clear"))
    c_query.struct_sessions(run, "C12", run.pick(40, 400), c_query._num)
