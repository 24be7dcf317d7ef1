"""Driving the real trees and recording what they do."""
import copy
import random
import signal

import project
from env import use_repo

use_repo()
from concept_formation.cobweb import CobwebTree      # noqa: E402
from concept_formation.cobweb3 import Cobweb3Tree    # noqa: E402
from concept_formation.trestle import TrestleTree    # noqa: E402


class Hang(Exception):
    pass


class limit:
    """Turn a call that does not come back into an exception."""

    def __init__(self, seconds=20):
        self.s = seconds

    def __enter__(self):
        def boom(*_):
            raise Hang("no result after %d s" % self.s)
        self.old = signal.signal(signal.SIGALRM, boom)
        signal.alarm(self.s)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def err_name(e):
    return ("%s: %s" % (type(e).__name__, e)).replace("|", "/").replace('"', "'").replace("\n", " ")[:160]


def make_tree(cfg):
    k = cfg["kind"]
    if k == "cobweb":
        return CobwebTree()
    cls = Cobweb3Tree if k == "cobweb3" else TrestleTree
    return cls(scaling=cfg["scal"] / 10000 if cfg["scal"] else False,
               inner_attr_scaling=cfg["inner"])


def config(r, kind=None):
    kind = kind or r.choice(["cobweb", "cobweb", "cobweb3", "cobweb3", "cobweb3", "trestle"])
    return {"kind": kind, "scal": 0 if kind == "cobweb" else r.choice([5000, 5000, 5000, 0, 10000, 2000]),
            "inner": r.random() < .7}


def root_table(tree, kind, meta):
    return project.table(tree.root.count, tree.root.av_counts, kind, meta)


def root_delta(before, tree):
    """The flat instance a Trestle fit added: the difference of root tables.
    `before` is a deep copy of (count, av_counts) of the old root."""
    count, av = before
    out = {}
    root = tree.root
    for a, vals in root.av_counts.items():
        old = av.get(a, {})
        for v, c in vals.items():
            if isinstance(v, str) and v == project.CV:
                o = old.get(v)
                on, om = (o.num, o.mean) if o is not None else (0, 0.0)
                if c.num != on:
                    out[a] = round(c.num * c.mean - on * om, 4)
            elif c != old.get(v, 0):
                out[a] = v
    return out


def plain(x):
    """No objects, variables or relations: Trestle adds it as it is."""
    return all(isinstance(a, str) and a[:1] != "?" and not isinstance(v, dict) and
               not (isinstance(v, str) and v[:1] == "?") for a, v in x.items())


def values(x):
    """The values of an instance, nested or flattened, each under its innermost attribute name."""
    out = []
    for a, v in x.items():
        n = a
        while isinstance(n, tuple) and n:
            n = n[1] if n[0] == "_" and len(n) > 1 else n[0]
        if isinstance(v, dict):
            out += values(v)
        elif n != "has-component":
            out.append("%s=%s" % (n, round(float(v), 4) + 0.0 if project.is_num(v) else repr(v)))
    return sorted(out)


class Session:
    """One tree, one recorded history."""

    def __init__(self, cfg, meta, seed):
        self.cfg = cfg
        self.kind = cfg["kind"]
        self.meta = meta
        random.seed(seed)
        self.tree = make_tree(cfg)
        self.first = self.tree.root.concept_id
        self.ev = []
        self.dead = False
        self.turn = seed if isinstance(seed, int) else len(str(seed))
        self.slot = {}

    def hand(self, inst):
        """Callers may hand over one dict again and again, filled anew each time."""
        self.turn += 1
        if self.turn % 5 < 2:
            return inst
        self.slot.clear()
        self.slot.update(inst)
        return self.slot

    def base(self):
        return {"post": project.snapshot(self.tree, self.kind, self.meta),
                "scales": project.scales(self.tree, self.meta)}

    def fit(self, inst):
        before = None
        if self.kind == "trestle":
            before = (self.tree.root.count, copy.deepcopy(self.tree.root.av_counts))
        given = copy.deepcopy(inst)
        try:
            with limit():
                ret = self.tree.ifit(self.hand(inst))
                flat = given if before is None or plain(given) else root_delta(before, self.tree)
                e = {"op": "fit", "gave": values(given), "got": values(flat), "inst": project.instance(flat, self.kind, self.meta),
                     "ret": getattr(ret, "concept_id", -1), "num": self.tree.root.num_concepts()}
                e.update(self.base())
        except Exception as ex:
            e = {"op": "err", "err": err_name(ex)}
            self.dead = True
        self.ev.append(e)
        return None if self.dead else ret

    def bulk(self, insts, then=None):
        """Many fits, of which only the last state is recorded, perhaps changed by hand."""
        fits = []
        try:
            with limit(120):
                for inst in insts:
                    before = None
                    if self.kind == "trestle":
                        before = (self.tree.root.count, copy.deepcopy(self.tree.root.av_counts))
                    given = copy.deepcopy(inst)
                    ret = self.tree.ifit(self.hand(inst))
                    flat = given if before is None or plain(given) else root_delta(before, self.tree)
                    fits.append({"inst": project.instance(flat, self.kind, self.meta), "ret": getattr(ret, "concept_id", -1)})
                if then:
                    then(self.tree)
                e = {"op": "bulk", "fits": fits, "num": self.tree.root.num_concepts()}
                e.update(self.base())
        except Exception as ex:
            e = {"op": "err", "err": err_name(ex)}
            self.dead = True
        self.ev.append(e)

    def clear(self):
        try:
            self.tree.clear()
            e = {"op": "clear"}
            e.update(self.base())
        except Exception as ex:
            e = {"op": "err", "err": err_name(ex)}
            self.dead = True
        self.ev.append(e)

    def nodes(self):
        out, stack = [], [self.tree.root]
        while stack and len(out) < 3000:
            n = stack.pop()
            out.append(n)
            stack.extend(n.children)
        return out

    def ask(self, op, fn):
        """Record a query: fn returns the fields of the event."""
        try:
            with limit():
                e = {"op": op}
                e.update(fn())
        except Exception as ex:
            e = {"op": "err", "err": op + ": " + err_name(ex)}
            self.dead = True
        self.ev.append(e)

    def trace(self):
        return {"cfg": self.cfg, "root": self.first, "ev": self.ev}
