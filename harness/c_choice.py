"""C29: choice and statistics helpers."""
import decimal
import fractions
import random

import gen
import project
import record
import tlc
from c_tree import judge

from concept_formation import utils

lf = project.log_float


def choice_event(ch, scale, n, seed):
    """ch: list of {v, w} with integer weights; the code sees w * scale."""
    real = [(c["v"], c["w"] * scale) for c in ch]
    random.seed(seed)
    e = {"op": "choice", "ch": ch, "n": n, "werr": False, "merr": False, "ml": [], "wc": []}
    try:
        e["ml"] = [utils.most_likely_choice(list(real)) for _ in range(4)]
    except ValueError:
        e["merr"] = True
    cnt = {}
    try:
        for _ in range(n):
            v = utils.weighted_choice(list(real))
            cnt[v] = cnt.get(v, 0) + 1
    except ValueError:
        e["werr"] = True
    e["wc"] = [{"v": v, "c": c} for v, c in cnt.items()]
    return e


class Draws:
    """Randomness whose next value is chosen; counts its uses."""

    def __init__(self):
        self.u, self.used = .5, 0

    def random(self):
        self.used += 1
        return self.u

    def uniform(self, a, b):
        self.used += 1
        return a + (b - a) * self.u


def draws_event(ch, scale, n):
    """Every draw from an even grid, and both ends of the range; None if the choice draws in another way."""
    real = [(c["v"], c["w"] * scale) for c in ch]
    d = Draws()
    old = {k: getattr(utils, k) for k in ("uniform", "random") if hasattr(utils, k)}
    e = {"op": "draws", "ch": ch, "n": n, "wc": [], "edge": [], "err": False}
    cnt = {}
    try:
        for k in old:
            setattr(utils, k, getattr(d, k))
        # the very last draws are asked for only where sums are exact: subtracting instead of adding up may round there
        top = [1 - 2.0 ** -52, 1 - 2.0 ** -53] if float(scale).is_integer() else [1 - 2.0 ** -40]
        for j, u in enumerate([(k + .5) / n for k in range(n)] + [0.0, 2.0 ** -53] + top):
            d.u, d.used = u, 0
            try:
                v = utils.weighted_choice(list(real))
            except ValueError:
                if d.used != 1:
                    return None
                e["err"] = True
                continue
            if d.used != 1:
                return None
            if j < n:
                cnt[v] = cnt.get(v, 0) + 1
            else:
                e["edge"].append(v)
    finally:
        for k, f in old.items():
            setattr(utils, k, f)
    e["wc"] = [{"v": v, "c": c} for v, c in cnt.items()]
    return e


def guarded(f):
    try:
        return f()
    except Exception as ex:
        return {"op": "err", "err": record.err_name(ex)}


VALUES = [(1, True), (0, True), (-3, True), (2.5, True), (float("inf"), True), (True, False), (False, False),
          (float("nan"), False), (-float("nan"), False), ("1", False), ("nan", False), (None, False),
          ((1,), False), ([], False), ({}, False), (fractions.Fraction(1, 3), True), (decimal.Decimal("1.5"), True),
          (decimal.Decimal("nan"), False), (10 ** 20, True), ("", False), (b"1", False), (object(), False),
          (-0.0, True), (1e308, True), (frozenset(), False), (int, False)]


def c29(run):
    lists, m = tlc.generate("MCChoice", "weighted lists of at most %d alternatives" % run.pick(3, 4), tlc.cfg(
        spec="MCSpec", constants={"MaxLen": str(run.pick(3, 4))}, invariants=["Shares", "LikelyPossible"]))
    run.model(m)
    run.extra["enumerated_lists"] = len(lists)
    traces, inputs = [], []

    def add(ev, what):
        traces.append({"ev": ev})
        inputs.append({"input": what})
    for k in range(0, len(lists), 50):
        part = lists[k:k + 50]
        dr = [draws_event(ch, sc, 60) for ch in part if all(c["w"] >= 0 for c in ch) and any(c["w"] for c in ch)
              for sc in (1, .0001, 1 / 3)]
        add([e for e in dr if e], "draws from %r" % (part,))
        add([guarded(lambda: choice_event(ch, .0001, 120, run.seed * 1000 + k)) for ch in part], "lists %r" % (part,))
    for i in range(run.pick(120, 1500)):
        r = gen.rng_for(run.seed, "c29", i)
        ch = [{"v": r.choice("abcdefgh"), "w": r.choice([0, 1, 1, 5, 100, 2500, 5000, 5001, 9999])}
              for _ in range(r.randint(1, 7))]
        if any(c["w"] for c in ch):
            sc = r.choice([.0001, .1, 1 / 3, 7.3, 1])
            dr = draws_event([dict(c) for c in ch], sc, 500)
            # weights that do not add up exactly
            ev = draws_event([{"v": r.choice("abc"), "w": r.choice([1, 2, 7])} for _ in range(r.randint(3, 15))], sc, 100)
            add([e for e in (dr, ev) if e], {"choices": [dict(c) for c in ch], "scale": sc, "draws": "grid"})
        if i % 20 == 3:                         # small shares beside large ones
            ch2 = [{"v": "o%d" % k, "w": r.choice([3, 5, 8])} for k in range(r.randint(4, 10))]
            ch2.insert(r.randint(0, len(ch2)), {"v": "most", "w": 20000})
            ev = draws_event(ch2, r.choice([.1, 1]), run.pick(15000, 60000))
            add([ev] if ev else [], {"choices": ch2, "draws": "fine grid"})
        if r.random() < .2:
            r.choice(ch)["w"] = -1
        xs = [round(r.uniform(-10, 10) * r.choice([1, 100]), r.choice([0, 2, 4])) for _ in range(r.randint(0, 9))]

        def stats():
            e = {"op": "stats", "xs": [project.dec(x) for x in xs], "err": False, "mean": [0], "std": [0]}
            bad = []
            for f in ("mean", "std"):
                try:
                    e[f] = lf(getattr(utils, f)(list(xs)))
                except ValueError:
                    bad.append(f)
            if len(bad) == 1:
                raise Exception("only %s refuses %r" % (bad, xs))
            e["err"] = bool(bad)
            return e
        add([guarded(lambda: choice_event(ch, .0001, run.pick(600, 3000), r.random())), guarded(stats)],
            {"choices": ch, "stats": xs})
    add([guarded(lambda: {"op": "isnum", "got": bool(utils.isNumber(v)), "real": real}) for v, real in VALUES],
        "isNumber")
    add([guarded(lambda: {"op": "c4", "n": n, "c": lf(utils.c4(n))}) for n in list(range(2, 60)) + [1000]], "c4")
    judge(run, "TraceChoice", tlc.cfg(spec="TSpec"), traces, inputs, {})
