"""Python instances as the terms of Terms.tla, and back."""
import ast
from decimal import Decimal
from fractions import Fraction


def enc(x):
    if isinstance(x, str):
        return {"s": x}
    if isinstance(x, bool) or x is None:
        return {"o": repr(x)}
    if isinstance(x, (int, float)):
        return {"n": repr(x)}
    if isinstance(x, (Fraction, Decimal)):
        return {"n": str(x)}
    if isinstance(x, tuple):
        return {"u": [enc(v) for v in x]}
    if isinstance(x, list):
        return {"l": [enc(v) for v in x]}
    if isinstance(x, dict):
        return {"d": [[enc(k), enc(v)] for k, v in x.items()]}
    try:
        hash(x)
        return {"o": repr(x)}
    except TypeError:
        return {"x": repr(x)}


def dec(t):
    (k, v), = t.items()
    if k == "s":
        return v
    if k in "nox":
        return ast.literal_eval(v)
    if k == "u":
        return tuple(dec(e) for e in v)
    if k == "l":
        return [dec(e) for e in v]
    return {dec(a): dec(b) for a, b in v}
