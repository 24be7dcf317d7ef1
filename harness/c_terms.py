"""C16, C17, C20-C23: preprocessors against Terms."""
import copy
import itertools
from decimal import Decimal
from fractions import Fraction

import gen
import record
import terms
import tlc
from c_tree import judge

from concept_formation import preprocessor as pp
from concept_formation.cobweb import CobwebTree
from concept_formation.cobweb3 import Cobweb3Tree
from concept_formation.trestle import TrestleTree

enc, dec = terms.enc, terms.dec
LAWS = ["FlatLaw", "SubLaw", "FlatKeys", "RenLaw", "RelLaw", "OrdLaw", "ChainLaw", "ParseLaw", "ConvLaw", "SanLaw"]


def enumerated(run, r, family, size, most=None):
    """All instances of a family, from the specification (a sample of them at most)."""
    out, m = tlc.generate("MCTerms", "every %s instance of size %d" % (family, size), tlc.cfg(
        spec="MCSpec", constants={"Family": '"%s"' % family, "Size": str(size)}, invariants=LAWS))
    run.model(m)
    out = [dec(t) for t in sorted(out, key=str)]
    run.extra["enumerated_" + family] = len(out)
    if most and len(out) > most:
        out = r.sample(out, most)
    run.extra["replayed_" + family] = len(out)
    return out


def call(r, p, x, undo=True):
    """Transform and undo in one of the equivalent ways; watch the argument."""
    keep = copy.deepcopy(x)
    how = r.randrange(4)
    if how == 0:
        y = p.transform(x)
    elif how == 1:
        y = p.batch_transform([x])[0]
    elif how == 2:
        y = pp.Pipeline(p).transform(x)
    else:
        y = pp.Pipeline(p).batch_transform([x])[0]
    same = repr(keep) == repr(x)
    out = copy.deepcopy(y)
    back = None
    if undo:
        ky = copy.deepcopy(y)
        back = [p.undo_transform, lambda v: p.batch_undo([v])[0], pp.Pipeline(p).undo_transform,
                lambda v: pp.Pipeline(p).batch_undo([v])[0]][how](y)
        same = same and repr(ky) == repr(y)
    return {"in": enc(keep), "out": enc(out), "undone": undo, "back": enc(back), "same": same, "seen": [],
            "nums": [], "targets": [], "all": True, "policy": "", "refused": False, "spec": "", "again": enc(None),
            "fiterr": "", "clause": ""}


def ev(op, e, **k):
    return dict(e, op=op, **k)


class Cases:
    def __init__(self, run):
        self.run, self.traces, self.inputs = run, [], []

    def add(self, what, f, **info):
        try:
            with record.limit(20):
                evs = f()
        except Exception as ex:
            evs = [{"op": "err", "err": record.err_name(ex), "same": True}]
        self.traces.append({"ev": evs})
        self.inputs.append({"input": repr(what), **info})

    def judge(self):
        judge(self.run, "TraceTerms", tlc.cfg(spec="TSpec"), self.traces, self.inputs, {})


class Struct:
    """Random structured instances: distinct variables, relations at the top."""

    def __init__(self, r, depth=3, lists=False, cap=4):
        self.r, self.depth, self.lists, self.cap = r, depth, lists, cap
        self.pool = ["?a", "?b", "?c1", "?obj", "?x", "?on", "?2", "?"]

    def atom(self):
        return self.r.choice(["v", "w", "?a", "", "a b", 1, 2.5, -3, True, False, 0, ("t", 1)])

    def comp(self, depth, free):
        r = self.r
        out = {}
        for k in r.sample(["a", "b", "x", "_h", "_g", "val-1"], r.randint(0, 3)):
            out[k] = self.atom()
        if self.lists and r.random() < .3:
            out[r.choice(["lst", "a-list"])] = [r.choice(["p", 2, 0, ""]) if r.random() < .4 else
                                                self.comp(r.randint(0, 1), free) for _ in range(r.randint(0, 3))]
        if free and r.random() < .1:
            out[free.pop()] = self.atom()
        if depth > 0:
            for _ in range(r.randint(0, 2)):
                if free and r.random() < .6:
                    nm = free.pop()
                    out[nm] = self.comp(depth - 1, free) if r.random() < .9 else self.atom()
                else:
                    out[r.choice(["p", "q", "part"])] = self.comp(depth - 1, free)
        if r.random() < .12:      # a hidden component
            out["_part"] = {"a": self.atom(), "_h": 1} if r.random() < .5 else {"q": {"b": self.atom()}}
        if not out:
            out["a"] = self.atom()
        return out

    def draw(self):
        r = self.r
        free = r.sample(self.pool, self.cap)
        x = self.comp(r.randint(0, self.depth), free)
        refs = []

        def walk(c, outer):
            for k, v in c.items():
                if isinstance(v, dict):
                    a = k if outer is None else (k, outer)
                    refs.append(a)
                    walk(v, a)
        walk(x, None)
        for _ in range(r.randint(0, 2)):
            args = [r.choice(refs + ["c9", "left"]) for _ in range(r.randint(2, 3))]
            if r.random() < .3:
                args[-1] = ("deg", r.choice(refs + ["z"]), args[0])
            val = r.choice([True, "yes", 4.3])
            if r.random() < .2:      # a relation described by attributes of its own
                val = self.comp(r.randint(0, 1), free)
            elif self.lists and r.random() < .2:
                val = ["p", self.comp(0, free), 2][:r.randint(1, 3)]
            if r.random() < .15:
                args = ["_"] + args
            x[tuple(["rel%d" % r.randint(1, 2)] + args if args[0] != "_" else ["_", "hid"] + args[1:])] = val
        items = list(x.items())
        r.shuffle(items)
        return dict(items)


def c16(run):
    r = gen.rng_for(run.seed, "C16", 0)
    cs = Cases(run)
    count = itertools.count()

    def gensym():
        return "?gen%d" % next(count)
    pool = [pp.NameStandardizer(), pp.NameStandardizer(), pp.NameStandardizer(gensym), pp.NameStandardizer(gensym)]
    insts = enumerated(run, r, "struct", run.pick(0, 1), run.pick(1500, 12000))
    g = Struct(r, 3, lists=True)
    insts += [g.draw() for _ in range(run.pick(700, 8000))]
    for _ in range(run.pick(20, 200)):        # objects far down a list
        n = r.randint(4, 9)
        who = set(r.sample(range(n), 4))
        kids = [{"?m%d" % i: {"s": r.choice("xy")}} if i in who else r.choice(["p", 2, {"a": "v"}]) for i in range(n)]
        insts.append(r.choice([{"l": kids}, {"top": {"l": kids}, ("on", "top", "?m%d" % min(who)): True}]))
    r.shuffle(insts)
    k = 0
    while k < len(insts):
        n = r.randint(1, 4)
        chunk = insts[k:k + n]
        k += n

        def history():
            seen, evs, last = [], [], None
            for x in chunk:
                if last is not None and r.random() < .3:
                    x = last                      # standardise what was standardised before
                p = r.choice(pool)
                e = call(r, p, copy.deepcopy(x))
                evs.append(ev("std", e, seen=list(seen)))
                y = dec(e["out"])
                seen += sorted(names(y))
                last = y
            return evs
        cs.add(chunk, history)
    cs.judge()


def names(x):
    out = set()

    def attr(a):
        if isinstance(a, tuple):
            for e in a:
                attr(e)
        elif isinstance(a, str) and a[:1] == "?":
            out.add(a)

    def walk(v):
        if isinstance(v, dict):
            for k, w in v.items():
                attr(k)
                walk(w)
        elif isinstance(v, list):
            for w in v:
                walk(w)
    walk(x)
    return out


def c17(run):
    r = gen.rng_for(run.seed, "C17", 0)
    cs = Cases(run)
    if not run.quick:
        run.model(tlc.model_check("MCTerms", "every struct instance of size 2", tlc.cfg(
            spec="MCSpec", constants={"Family": '"struct"', "Size": "2"}, invariants=LAWS)))
    flat, sub = pp.Flattener(), pp.SubComponentProcessor()
    insts = enumerated(run, r, "struct", run.pick(0, 1), run.pick(1500, 30000))
    g = Struct(r, 3, cap=6)
    insts += [g.draw() for _ in range(run.pick(900, 12000))]
    for _ in range(run.pick(30, 300)):          # components nested many times
        x, vs = {"a": "v", "_h": 1}, ["?n%d" % k for k in range(3)]
        for k in range(r.randint(5, 12)):
            x = {vs.pop() if vs and r.random() < .3 else r.choice(["p", "q", "part"]): x}
            if r.random() < .3:
                x["b"] = k
        insts.append(x)

    def one(x):
        e = call(r, flat, copy.deepcopy(x))
        y = dec(e["out"])
        e2 = call(r, sub, copy.deepcopy(y))
        evs = [ev("flat", e), ev("sub", e2)]
        if r.random() < .3:
            evs.append(ev("both", call(r, pp.Pipeline(pp.Flattener(), pp.SubComponentProcessor()), copy.deepcopy(x))))
        if r.random() < .3:      # undoing something else than what was transformed (e.g. with predictions)
            z = {k: v for k, v in y.items() if r.random() < .7}
            evs.append(ev("unflat", undo_call(flat, z)))
            z2 = dec(e2["out"])
            z2 = {k: v for k, v in z2.items() if r.random() < .8 or (isinstance(k, tuple) and k[0] == "has-component")}
            evs.append(ev("embed", undo_call(sub, z2)))
            if r.random() < .5:
                evs.append(ev("embed", undo_call(sub, shared(r, z2))))
        return evs
    for x in insts:
        cs.add(x, lambda: one(x))
    cs.judge()


def shared(r, z):
    """z with further owners for some of its components; no component comes to own itself."""
    rels = [k for k in z if isinstance(k, tuple) and len(k) == 3 and k[0] == "has-component"]
    owners = {}
    for _, o, c in rels:
        owners.setdefault(c, []).append(o)
    if any(len(v) > 1 for v in owners.values()) or not rels:
        return z

    def above(c):
        out = {c}
        for o in owners.get(c, []):
            out |= above(o) if not isinstance(o, tuple) else above(o[-1])
        return out
    names = sorted({n for c in owners for n in above(c)}, key=repr)
    z = dict(z)
    for _ in range(r.randint(1, 3)):
        c = r.choice(sorted(owners, key=repr))
        free = [n for n in names + ["?other"] if c not in above(n) and n not in owners[c]]
        if free:
            o = r.choice(free)
            owners[c].append(o)
            z["has-component", o, c] = True
    ks = list(z)
    r.shuffle(ks)
    return {k: z[k] for k in ks}


def undo_call(p, z):
    keep = copy.deepcopy(z)
    out = p.undo_transform(z)
    return {"in": enc(keep), "out": enc(out), "undone": False, "back": enc(None), "same": repr(keep) == repr(z)}


def rand_lists(r, depth=2):
    def el(d):
        k = r.random()
        if k < .5 or d == 0:
            return r.choice(["a", "b", "c", "a", 1, 2.5, True, 0, False, "", None, "val", ("t", 2)])
        if k < .8:
            return comp(d - 1)
        return [el(d - 1) for _ in range(r.randint(1, 3))]

    def comp(d):
        out = {}
        for k in r.sample(["k", "m", "n"], r.randint(1, 2)):
            c = r.random()
            out[k] = (r.choice(["v", 3, 0, "", False]) if c < .4 or d == 0 else
                      [el(d - 1) for _ in range(r.randint(1, 5))] if c < .8 else comp(d - 1))
        if r.random() < .2:
            out["_h"] = "hid"
        return out
    x = comp(depth)
    if r.random() < .5:
        x["l1"] = [el(depth) for _ in range(r.randint(1, 6))]
    if r.random() < .2:
        x["?c"] = comp(1)
    if r.random() < .2:
        x[("near", "k", "m")] = True if r.random() < .5 else comp(1) if r.random() < .5 else [el(1) for _ in range(r.randint(1, 3))]
    return x


def c20(run):
    r = gen.rng_for(run.seed, "C20", 0)
    cs = Cases(run)
    count = itertools.count()
    ext = [pp.ExtractListElements(), pp.ExtractListElements(lambda: "?el%d" % next(count)),
           pp.ExtractListElements(lambda: "?e%d" % (next(count) * 7919 % 99991))]
    rel, lp = pp.ListsToRelations(), pp.ListProcessor()
    for x in enumerated(run, r, "list", run.pick(0, 2), run.pick(900, 12000)) + [rand_lists(r, r.choice([2, 2, 3])) for _ in range(run.pick(500, 5000))]:
        cs.add(x, lambda: [ev("extract", call(r, r.choice(ext), copy.deepcopy(x))),
                           ev("lists", call(r, lp if r.random() < .5 else pp.ListProcessor(), copy.deepcopy(x)))])
    for _ in range(run.pick(12, 120)):      # long lists
        n = r.randint(12, 30)
        x = {"l": [r.choice(["s%d" % k, k, {"v": k}]) for k in range(n)], "z": "v"}
        cs.add(x, lambda: [ev("extract", call(r, r.choice(ext), copy.deepcopy(x))),
                           ev("lists", call(r, pp.ListProcessor(), copy.deepcopy(x)))])
    words = enumerated(run, r, "word", 0, run.pick(500, None))
    for _ in range(run.pick(100, 1000)):
        w = r.sample(["a", "b", "c", "d", "e", "f", "g", "h", "i"], r.choice([1, 2, 3, 4, 5, 6, 7, 9]))
        if r.random() < .15:
            w = r.sample(["e%d" % k for k in range(40)], r.randint(10, 25))
        words.append({"o": {"p": {"l": w}, "q": "v"}, "w": list(reversed(w)), "_h": 1})
    for x in words:
        cs.add(x, lambda: [ev("rel", call(r, rel, copy.deepcopy(x)))])
    for x in enumerated(run, r, "order", 0):
        items = list(x.items())
        r.shuffle(items)
        cs.add(x, lambda: [ev("unrel", undo_call(rel, dict(items)))])
    for _ in range(run.pick(60, 600)):      # long chains of relations in any order
        w = r.sample(["a", "b", "c", "d", "e", "f", "g", "h", "i"], r.randint(4, 9))
        x = rel.transform({"l": list(w), "z": "v"})
        items = list(x.items())
        r.shuffle(items)
        cs.add(x, lambda: [ev("rerel", dict(undo_call(rel, dict(items)), word=enc({"l": list(w), "z": "v"})))])
    for _ in range(run.pick(120, 1200)):    # several lists, the order of some of them unknown
        x, e = {"z": "v"}, iter(r.sample(["e%d" % k for k in range(40)], 40))
        for name in r.sample(["l", "m", "n", "o"], r.randint(2, 3)):
            w = [next(e) for _ in range(r.randint(2, 5))]
            y = rel.transform({name: list(w)})
            ords = [k for k in y if isinstance(k, tuple) and k[0] == "ordered-list"]
            how = r.random()
            if how < .3 and ords:
                del y[r.choice(ords)]
            elif how < .45 and ords:
                y[r.choice(ords)[:2] + (w[-1], w[0])] = True
            elif how < .55:
                y = {k: v for k, v in y.items() if k not in ords}
            x.update(y)
        items = list(x.items())
        r.shuffle(items)
        cs.add(x, lambda: [ev("unrel", undo_call(rel, dict(items)))])
    for x, clause, key in ((({"l": [{"val": 1, "z": 2}]}), "an element with an attribute 'val' survives", "element-val"),
                           (({"l": []}), "an empty list survives", "empty-list")):
        cs.add(x, lambda: [ev("known", call(r, pp.ListProcessor(), copy.deepcopy(x)), clause=clause)], known_key=key)
    cs.judge()


def spell(t):
    return "(" + " ".join(spell(e) if isinstance(e, tuple) else str(e) for e in t) + ")" if isinstance(t, tuple) else t


def words_of(t):
    return [w for e in t for w in (words_of(e) if isinstance(e, tuple) else [str(e)])]


def c21(run):
    r = gen.rng_for(run.seed, "C21", 0)
    cs = Cases(run)
    tup = pp.Tuplizer()

    def rand_rel(d):
        n = r.randint(1, 4)
        return tuple(rand_rel(d - 1) if d and (i or n > 1 and r.random() < .3) and r.random() < .35 else
                     r.choice(["foo", "o1", "?x", "has-b", "x.y", "a_1", "_h", 12.4, -0.5, 3.0, 1e-07, 18.25,
                               "+x", "-y", ".z", "e5", float("inf"), 1e+22])
                     for i in range(n))
    def nest(d):
        t = ("in", "?x")
        for _ in range(d):
            t = r.choice([("p", t), ("p", t, "q"), ("p", "o", t), (t, "q")])
        return t
    insts = enumerated(run, r, "tuple", run.pick(0, 2), run.pick(700, None))
    for _ in range(run.pick(400, 4000)):
        x = {}
        for _ in range(r.randint(1, 3)):
            x[nest(r.randint(3, 12)) if r.random() < .08 else rand_rel(r.randint(0, 3))] = r.choice([True, "v", 2, None, {"a": "(b c)"}])
        if r.random() < .5:
            x[r.choice(["a", "?b", "_c", "a(b", "x)"])] = r.choice(["(a b)", 3, {"(in side)": 1}])
        insts.append(x)
    for x in insts:
        def one():
            s = {spell(k): v for k, v in x.items()}
            nums = []
            for k in x:
                if isinstance(k, tuple):
                    for w in words_of(k):
                        try:
                            nums.append({"w": w, "f": repr(float(w))})
                        except ValueError:
                            pass
            # a string with inner spaces doubled or an integer spelling does not print back
            return [ev("tuple", call(r, tup, s), nums=nums), ev("untuple", undo_call(tup, copy.deepcopy(x)))]
        cs.add(x, one)
    spelt = ["1", "2", "10", "0.50", "1e3", "-2", ".5", "+3", "5.", "-.25", "1E-2", "007", "1_0", "+.5e1", "-0"]
    odd = ["(a 1 2)", "(r (s 10) 0.50)", "(f 1e3 -2)"]
    for _ in range(run.pick(40, 400)):
        odd.append(spell(tuple(r.choice(spelt + ["a", "?x"]) if r.random() < .8 else ("g", r.choice(spelt), "b")
                               for _ in range(r.randint(1, 4)))))
    for s in odd:
        def two():
            nums = [{"w": w, "f": repr(float(w))} for w in spelt]
            return [ev("tuple", dict(call(r, tup, {s: True}), undone=False), nums=nums)]
        cs.add(s, two)
    cs.judge()


def c22(run):
    r = gen.rng_for(run.seed, "C22", 0)
    cs = Cases(run)
    base = enumerated(run, r, "conv", 0, run.pick(500, None))
    g = Struct(r, 2)

    def clean(x):
        return {k: clean(v) if isinstance(v, dict) else ("12.50" if isinstance(v, (bool, tuple)) else v) for k, v in x.items()}
    odd = set()
    for k, v in enumerate(["nan", "inf", "-Infinity", " 7 ", "1_0", "1e3", "0x1", "", "1e400", "-0"]):
        base += [{"a": v, "p": {"b": v, "x": "y"}}, {"c": v, "x": 1}]
        odd.update(str(x) for x in base[-2:])
    base += [clean(g.draw()) for _ in range(run.pick(250, 2500))]
    for _ in range(run.pick(30, 300)):        # numbers with all their digits
        v = r.choice([.1 + .2, 1234567.123456789, r.random(), r.random() * 1e9, r.getrandbits(60), -r.random() / 3, 1e16, 2 ** 53 + 1, Fraction(r.randint(1, 9), 7), Decimal("2.50")])
        base.append(r.choice([{"a": v, "p": {"b": -v, "x": "y"}}, {"c": v, "x": r.random(), ("on", "c", "a"): v}]))

    def reads(x):
        out = []

        def walk(v):
            for w in v.values():
                if isinstance(w, dict):
                    walk(w)
                else:
                    try:
                        out.append({"v": enc(w), "f": repr(float(w))})
                    except (ValueError, TypeError):
                        pass
        walk(x)
        return out
    for x in base:
        keys = ["a", "b", "c", "x", "p", "?a", ("on", "c", "a")]

        def one():
            t = [] if r.random() < .3 or str(x) in odd else r.sample(keys, r.randint(1, 3))
            k = {"targets": [enc(v) for v in t], "all": not t}
            evs = [ev("n2s", call(r, pp.NumericToNominal(*t), copy.deepcopy(x)), **k)]
            for policy in ("break", "drop", "zero", r.choice(["Break", "nonsense"])):
                p = pp.NominalToNumeric(policy, *t)
                real = policy if policy in ("break", "drop", "zero") else "break"
                try:
                    e = call(r, p, copy.deepcopy(x))
                except (ValueError, TypeError):
                    e = {"in": enc(x), "out": enc({}), "same": True, "refused": True}
                evs.append(ev("s2n", dict(e, policy=real, nums=reads(x), **k)))
            y = variable_case(x, t)
            if y is not None:
                evs.append(ev("obj", call(r, pp.ObjectVariablizer(*t), copy.deepcopy(y)), **k))
            return evs
        cs.add(x, one)
    cs.judge()


def variable_case(x, t):
    """x without a target nested in a component that is none (the documentation does not say what happens then)
    and without a relation naming an object that is not at the top."""
    def ok(c, targeted):
        for k, v in c.items():
            if isinstance(v, dict):
                hit = not t or k in t
                if hit and not targeted:
                    return False
                if not ok(v, targeted and hit):
                    return False
                if hit and k[0] != "?" and "?" + k in c:
                    return False
        return True
    if any(isinstance(k, tuple) and isinstance(v, dict) for k, v in x.items()) or not ok(x, True):
        return None
    nested = set()

    def walk(c, top):
        for k, v in c.items():
            if isinstance(v, dict):
                if not top:
                    nested.add(k)
                walk(v, False)
    walk(x, True)
    return {k: v for k, v in x.items() if not (isinstance(k, tuple) and any(w in nested for w in words_of(k)))}


TREE = {"cobweb": CobwebTree, "cobweb3": Cobweb3Tree, "trestle": TrestleTree}


def c23(run):
    r = gen.rng_for(run.seed, "C23", 0)
    cs = Cases(run)
    insts = enumerated(run, r, "san", 0, run.pick(900, None))

    def val(d):
        k = r.random()
        if k < .5:
            return r.choice(["v", 1, 2.5, True, False, 0, ("t", 1), ("t",), (), frozenset([1]), len, b"b", "", -1])
        if k < .65 or d == 0:
            return r.choice([[1, "a"], set(), bytearray(b"x"), [], (1, [2]), {}])
        return mapping(d - 1)

    def rel(d):
        return tuple(rel(d - 1) if d and r.random() < .25 else r.choice(["a", "b", "?x", 1, 2.5, True, None, -3, "c", "d", b"q"])
                     for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6, 9])))

    def mapping(d):
        out = {}
        for _ in range(r.randint(1, 4)):
            k = rel(2) if r.random() < .15 else r.choice(["a", "b", "?x", "_h", "key", 1, 2.5, None, True, len, ("rel", "a", "b"), ("rel", 2, "b"),
                          ("rel", ("s", 3), "c"), ("r1", ("s", "z"), "c"), ("r", ("x",)), ("u",),
                          ("r2", (("deep", 3),), "a"), frozenset(["q"]), b"k", ("rel", 2.5, "b"), ("rel", True, "c"),
                          ("rel", None, "d"), ("r3", "a", (2.5, "x")), (1.5, "num"), ("r4", -1, b"q")])
            if str(k) in [str(q) for q in out] or (k == 1 and True in out):
                continue
            out[k] = val(d)
        return out
    insts += [mapping(2) for _ in range(run.pick(500, 6000))]

    def one(x, spec):
        p = pp.Sanitizer(r.choice([spec, spec.upper(), spec.capitalize()]) if r.random() < .3 else spec)
        e = call(r, p, x, False)
        y = p.transform(x)
        e["again"] = enc(p.transform(y))
        try:
            t = TREE[spec]()
            for _ in range(r.randint(1, 3)):
                t.ifit(y)
        except Exception as ex:
            e["fiterr"] = record.err_name(ex)
        return [ev("san", e, spec=spec)]
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        for x in insts:
            for spec in TREE:
                if r.random() < .6:
                    cs.add(x, lambda: one(x, spec), spec=spec)
    cs.judge()
