"""Projection of implementation state to the values the specification uses."""
from fractions import Fraction
from numbers import Number
import math

CV = "#ContinuousValue#"
HUGE = 10 ** 40          # stands for a number that is not one (nan, inf, not numeric)


def limbs(n):
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        out.append(n % 10000)
        n //= 10000
    return out


def is_num(v):
    return isinstance(v, Number) and not isinstance(v, bool) and not isinstance(v, complex) and v == v


def log_float(x):
    """A double as round(x * 10^12), in limbs."""
    try:
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return limbs(HUGE)
        return limbs(round(Fraction(x) * 10 ** 12))
    except Exception:
        return limbs(HUGE)


def dec(x):
    """An input number, a decimal with at most four places, in limbs."""
    return limbs(round(Fraction(x) * 10000))


def frac(x):
    """The decimal an input number denotes."""
    return Fraction(round(Fraction(x) * 10000), 10000)


def as_int(x):
    try:
        if isinstance(x, Number) and float(x) == int(x) and abs(int(x)) < 2 ** 31:
            return int(x)
    except Exception:
        pass
    return -1


def key(a):
    return repr(a)


def nom(v, kind):
    if kind == "cobweb" and isinstance(v, Number):
        return repr(float(v))
    return repr(v)


def hidden(a):
    return a[0] == "_"


def inner_name(a):
    """The innermost attribute name; that of a hidden attribute is marked as hidden."""
    if isinstance(a, tuple) and a[0] == "_" and len(a) > 1:
        name = str(inner_name(a[1]))
        return name if name.startswith("_") else "_" + name
    return a[0] if isinstance(a, tuple) else a


def inner(a):
    return key(inner_name(a))


class Meta(dict):
    def add(self, a):
        k = key(a)
        if k not in self:
            try:
                self[k] = {"hid": bool(hidden(a)), "inner": inner(a)}
            except Exception:
                self[k] = {"hid": False, "inner": k}
            if isinstance(a, tuple) and a:
                self.add(inner_name(a))
        return k


def instance(inst, kind, meta):
    """A flat instance."""
    out = {"nom": {}, "num": {}}
    for a, v in inst.items():
        k = meta.add(a)
        if kind != "cobweb" and is_num(v):
            out["num"][k] = dec(v)
        else:
            out["nom"][k] = nom(v, kind)
    return out


def table(count, av, kind, meta):
    out = {"count": as_int(count), "nom": {}, "num": {}}
    for a, vals in av.items():
        k = meta.add(a)
        if not vals:
            out["nom"][k] = {}
        for v, c in vals.items():
            if kind != "cobweb" and isinstance(v, str) and v == CV:
                out["num"][k] = {"n": as_int(getattr(c, "num", None)),
                                 "m": log_float(getattr(c, "mean", None)),
                                 "q": log_float(getattr(c, "meanSq", None))}
            else:
                out["nom"].setdefault(k, {})[nom(v, kind)] = as_int(c)
    return out


def snapshot(tree, kind, meta, limit=4000, root=None):
    """The whole hierarchy: every concept reachable from the root."""
    nodes, seen, order = [], {}, []
    root = tree.root if root is None else root
    stack = [root]
    shared = False
    while stack:
        n = stack.pop()
        if id(n) in seen:
            shared = True
            continue
        if len(order) >= limit:
            shared = True
            break
        seen[id(n)] = n
        order.append(n)
        stack.extend(n.children)
    for n in order:
        par = 0
        if n.parent is not None:
            par = n.parent.concept_id if id(n.parent) in seen else -1
        nodes.append({"id": n.concept_id, "par": par,
                      "kids": [c.concept_id for c in n.children],
                      "own": n.tree is tree,
                      "t": table(n.count, n.av_counts, kind, meta)})
    return {"root": root.concept_id, "shared": shared, "nodes": nodes}


def scales(tree, meta):
    out = {}
    for a, c in getattr(tree, "attr_scales", {}).items():
        out[meta.add(a)] = {"n": as_int(c.num), "m": log_float(c.mean), "q": log_float(c.meanSq)}
    return out
