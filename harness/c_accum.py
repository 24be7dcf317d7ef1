"""C11: accumulator histories, TLC-enumerated and random."""
import math
from fractions import Fraction

import gen
import project
import record
import tlc
from c_tree import judge

from concept_formation.continuous_value import ContinuousValue

lf = project.log_float


def unlimb(l):
    n = 0
    for d in reversed(l[1:]):
        n = n * 10000 + d
    return l[0] * n


def look(cv, scale, shift, k):
    """k: the data are in units of 10^k, so are the logged statistics."""
    u = Fraction(10) ** k
    a = lambda x: lf(Fraction(x) / u) if ok(x) else lf(x)
    j = cv.output_json()
    q = cv.meanSq
    return {"n": project.as_int(cv.num), "m": a(cv.mean), "q": lf(Fraction(q) / u / u) if ok(q) else lf(q),
            "um": a(cv.unbiased_mean()),
            "jn": project.as_int(j["n"]), "jm": a(j["mean"]), "jstd": a(j["std"]),
            "bstd": a(cv.biased_std() if cv.num else 0), "ustd": a(cv.unbiased_std()),
            "scale": project.dec(scale), "shift": project.dec(shift),
            "sustd": lf(cv.scaled_unbiased_std(unit(scale, k))),
            "sbstd": lf(cv.scaled_biased_std(unit(scale, k)) if cv.num else 0),
            "sm": lf(cv.scaled_unbiased_mean(unit(shift, k), unit(scale, k)))}


def ok(x):
    return not (math.isnan(x) or math.isinf(x))


def unit(x, k):
    """The decimal x in units of 10^k, as the nearest double."""
    return x if k == 0 else float(Fraction(project.frac(x)) * Fraction(10) ** k)


def replay(ops, nreg, scales, k10=0):
    """ops: (op, args) with numbers as python values."""
    regs = [ContinuousValue() for _ in range(nreg)]
    ev = []
    for k, o in enumerate(ops):
        e = {"op": o["op"]}
        try:
            r = o["r"] - 1
            e["r"] = o["r"]
            if o["op"] == "new":
                regs[r] = ContinuousValue()
            elif o["op"] == "upd":
                regs[r].update(unit(o["x"], k10))
                e["x"] = project.dec(o["x"])
            elif o["op"] == "batch":
                regs[r].update_batch([unit(x, k10) for x in o["xs"]])
                e["xs"] = [project.dec(x) for x in o["xs"]]
            elif o["op"] == "many":
                e["xs"], e["k"] = [project.dec(x) for x in o["xs"]], o["k"]
                xs = [unit(x, k10) for x in o["xs"]]
                if k % 2:
                    regs[r].update_batch(xs * o["k"])
                else:
                    for x in xs * o["k"]:
                        regs[r].update(x)
            elif o["op"] == "copy":
                regs[o["to"] - 1] = regs[r].copy()
                e["to"] = o["to"]
            elif o["op"] == "comb":
                regs[r].combine(regs[o["o"] - 1])
                e["o"] = o["o"]
            sc, sh = scales[k % len(scales)]
            e["regs"] = [look(c, sc, sh, k10) for c in regs]
            e["over"] = []
            if k10 == 0:
                a, b = (k % nreg), ((k + 1 + k // nreg) % nreg)
                e["over"] = [{"a": a + 1, "b": b + 1, "v": lf(regs[a].integral_of_gaussian_product(regs[b]))}]
        except Exception as ex:
            ev.append({"op": "err", "err": record.err_name(ex)})
            break
        ev.append(e)
    return {"regs": nreg, "ev": ev}


def c11(run):
    for nreg, d in ((2, run.pick(4, 5)), (3, run.pick(3, 4))):
        run.model(tlc.model_check("MCAccum", "accumulators, %d registers, %d operations" % (nreg, d), tlc.cfg(
            spec="MCSpec", constants={"NReg": str(nreg), "MaxOps": str(d), "Emit": "FALSE"},
            invariants=["AlgAgrees", "NonNegative", "OverlapBounded"], view="Hist")))
    hists, m = tlc.generate("MCAccum", "all accumulator histories of %d operations" % run.pick(3, 4), tlc.cfg(
        spec="MCSpec", constants={"NReg": "2", "MaxOps": str(run.pick(3, 4)), "Emit": "TRUE"}, view="Hist"))
    run.model(m)
    traces, inputs = [], []
    for h in hists:
        ops = [dict(o, x=unlimb(o["x"]) / 10000) if "x" in o else
               dict(o, xs=[unlimb(x) / 10000 for x in o["xs"]]) if "xs" in o else o for o in h]
        k10 = (0, 0, -6, 5)[len(traces) % 4]
        traces.append(replay(ops, 2, [(2.5, 1)], k10))
        inputs.append({"ops": ops, "unit": k10})
    run.extra["enumerated_histories"] = len(hists)
    for i in range(run.pick(160, 2000)):
        r = gen.rng_for(run.seed, "c11", i)
        nreg = r.randint(2, 4)
        mag = r.choice([1, 1, 10, 1000])
        off = r.choice([0, 0, 0, 100, -5000, 1e6, -1e7])
        digits = r.choice([0, 1, 2, 4])

        def num():
            v = round(off + r.uniform(-mag, mag), digits)
            return int(v) if digits == 0 and r.random() < .7 else v
        ops = []
        for _ in range(r.randint(3, 30)):
            a = r.randint(1, nreg)
            b = r.choice([x for x in range(1, nreg + 1) if x != a])
            t = r.random()
            if t < .4:
                ops.append({"op": "upd", "r": a, "x": num()})
            elif t < .6:
                ops.append({"op": "batch", "r": a, "xs": [num() for _ in range(r.choice([0, 1, 2, 5, 31]))]})
            elif t < .75:
                ops.append({"op": "copy", "r": a, "to": b})
            elif t < .95:
                ops.append({"op": "comb", "r": a, "o": b if r.random() < .9 else a})
            else:
                ops.append({"op": "new", "r": a})
        most = 3000
        if i % 16 == 3:                         # very many numbers
            most = 45000
            ops = ops[:r.randint(2, 8)] + [{"op": "many", "r": 1, "xs": [num() for _ in range(r.randint(1, 5))], "k": 4000}]
            ops += [{"op": "many", "r": r.randint(1, 2), "xs": [num()], "k": r.choice([1000, 9000, 20000, 30000])}
                    for _ in range(2)] + [{"op": "upd", "r": 1, "x": num()}, {"op": "comb", "r": 2, "o": 1}]
            ops += [{"op": "new", "r": 2}, {"op": "batch", "r": 2, "xs": [num() for _ in range(r.randint(2, 4))]},
                    {"op": "comb", "r": 1, "o": 2}]
        # chains of combinations grow counts exponentially: keep them bounded
        size, keep = [0] * (nreg + 1), []
        for o in ops:
            n = list(size)
            if o["op"] == "upd":
                n[o["r"]] += 1
            elif o["op"] == "batch":
                n[o["r"]] += len(o["xs"])
            elif o["op"] == "many":
                n[o["r"]] += len(o["xs"]) * o["k"]
            elif o["op"] == "copy":
                n[o["to"]] = n[o["r"]]
            elif o["op"] == "comb":
                n[o["r"]] += n[o["o"]]
            else:
                n[o["r"]] = 0
            if max(n) < most:
                size = n
                keep.append(o)
        k10 = r.choice([0, 0, 0, -7, -3, 6])
        scales = [(r.choice([0, -1, 1, .5, 2.5, 3] if k10 == 0 else [1, .5, 2.5]), r.choice([0, 1, -2.5])) for _ in range(3)]
        traces.append(replay(keep, nreg, scales, k10))
        inputs.append({"ops": keep, "unit": k10})
    judge(run, "TraceAccum", tlc.cfg(spec="TSpec"), traces, inputs, {})
