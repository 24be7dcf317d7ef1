"""C31: data set loaders."""
import hashlib
import json
import os
import random
import shutil
import tempfile

import env
import gen
import project
import record
import tlc

from concept_formation import datasets

FILES = {"load_forest_fires": ("forest_fires.json", 517), "load_congressional_voting": ("congressional_voting.json", 435),
         "load_iris": ("iris.json", 150), "load_mushroom": ("mushrooms.json", 8124),
         "load_rb_com_11": ("rb_com_11_continuous.json", 251), "load_rb_s_07": ("rb_s_07_continuous.json", 141),
         "load_rb_s_13": ("rb_s_13_continuous.json", 249), "load_rb_wb_03": ("rb_wb_03_continuous.json", 254),
         "load_molecule": ("molecule.json", 101),
         "load_rb_s_07_human_predictions": ("human_s_07_success_predictions.csv", 601)}


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


def source(name):
    """The data set, read from the file without the code under test."""
    path = os.path.join(os.path.dirname(datasets.__file__), "data_files", FILES[name][0])
    with open(path) as f:
        text = f.read()
    if path.endswith(".csv"):
        return text.split("\n")[:FILES[name][1]]
    try:
        return json.loads(text)
    except ValueError:
        return [json.loads(ln.strip("[],\n")) for ln in text.split("\n") if ln.strip("[],\n")]


def spoil(recs):
    """What a caller might do to the records it was given."""
    for x in recs[:5]:
        if isinstance(x, dict):
            for k in list(x)[:2]:
                v = x[k]
                if isinstance(v, dict):
                    v.clear()
                elif isinstance(v, list):
                    del v[:]
                else:
                    x[k] = "spoilt"
            x["extra"] = 1
    del recs[:1]
    recs.append({"mine": 1})


def parts(x):
    return [{"name": k, "attrs": sorted(v), "numeric": all(project.is_num(v[a]) for a in v if a != "_type")}
            for k, v in x.items() if isinstance(v, dict)]


def c31(run):
    run.model(tlc.model_check("MCLoader", "loads and writes", tlc.cfg(
        spec="Spec", constants={"Records": "{1,2}", "MaxLoads": str(run.pick(2, 3))}, invariants=["FirstN"])))
    full = {}
    for name in sorted(FILES):
        try:
            full[name] = [digest(x) for x in source(name)]
        except OSError:
            full[name] = ["missing"] * FILES[name][1]
    traces, inputs = [], []
    here, scratch = os.getcwd(), tempfile.mkdtemp(prefix="verif-load-")
    os.makedirs(os.path.join(scratch, "data_files"))
    for d in (scratch, os.path.join(scratch, "data_files")):     # files of the same names that are not the data sets
        for f, _ in FILES.values():
            with open(os.path.join(d, f), "w") as o:
                o.write('[{"not": "it"},\n{"not": "this"}]')
    try:
        loads(run, traces, inputs, scratch, here)
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    bad, tot = tlc.validate("TraceLoad", tlc.cfg(spec="TSpec"), traces, meta=full)
    run.validated(tot)
    for i, step, clause in bad:
        run.report(clause, dict(inputs[i], failing_step=step))
    run.sample(inputs[0])
    run.extra["loads"] = sum(len(t["ev"]) for t in traces)


def loads(run, traces, inputs, scratch, here):
    for name in sorted(FILES) + ["load_quadruped"]:
        for i in range(run.pick(4, 30)):
            r = gen.rng_for(run.seed, "C31", name, i)
            evs, log, held, key = [], [], [], None
            for _ in range(run.pick(5, 12)):
                total = FILES[name][1] if name in FILES else 8
                n = r.choice([None, 0, 1, 2, 3, r.randint(0, total), total - 1, total, total + 1, total + 500])
                if "human" in name:
                    n = None
                if name == "load_quadruped":
                    n = r.choice([0, 1, 2, 9])
                away = r.random() < .3
                os.chdir(scratch if away else here)
                log.append("%s(%s)%s" % (name, n, " in a folder with files of that name" if away else ""))
                try:
                    f = getattr(datasets, name)
                    random.seed(r.random())
                    got = f() if n is None else f(n) if r.random() < .6 else f(num_instances=n)
                except Exception as ex:
                    evs.append({"op": "err", "err": record.err_name(ex)})
                    if isinstance(ex, FileNotFoundError) and name == "load_mushroom":
                        key = "mushrooms.json"
                    break
                fresh = not any(got is h for h in held) and not (
                    {id(x) for x in got if isinstance(x, dict)} & {id(x) for h in held for x in h})
                if name == "load_quadruped":
                    evs.append({"op": "make", "n": n, "fresh": fresh,
                                "got": [{"type": x.get("_type"), "parts": parts(x)} for x in got]})
                else:
                    evs.append({"op": "load", "ds": name, "n": -1 if n is None else n, "fresh": fresh,
                                "got": [digest(x) for x in got]})
                held.append(got)
                if r.random() < .6:
                    spoil(got)
                    log.append("write into it")
            traces.append({"ev": evs})
            inputs.append({"ops": log})
            if key:
                inputs[-1]["known_key"] = key
