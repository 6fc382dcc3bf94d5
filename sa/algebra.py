"""Exact identities between rational expressions with square roots."""
from .poly import Poly, K, A, ZERO, ONE, ATOMS


def power(p, n):
    r = ONE
    for _ in range(n):
        r = r * p
    return r


def clear(p, limit=40):
    """a polynomial that is zero exactly when p is (denominators are not zero)"""
    for _ in range(limit):
        pick = None
        for m in p.t:
            for a, e in m:
                at = ATOMS[a]
                if at.kind == "app" and at.name == "den":
                    pick = a
                elif e < 0:
                    pick = pick if pick is not None and ATOMS[pick].name == "den" else a
                elif at.kind == "app" and at.name == "sqrt" and e >= 2 and pick is None:
                    pick = a
        if pick is None:
            return p
        at = ATOMS[pick]
        exps = [dict(m).get(pick, 0) for m in p.t]
        lo = min(min(exps), 0)
        den = at.kind == "app" and at.name == "den"
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(pick, 0) - lo
            rest = Poly({tuple(sorted(d.items())): c})
            if den:
                rest = rest * power(at.args[0], e)
            elif at.kind == "app" and at.name == "sqrt":
                rest = rest * power(at.args[0], e // 2)
                if e % 2:
                    rest = rest * A(at)
            elif e:
                rest = rest * Poly({((pick, e),): 1})
            out = out + rest
        p = out
    return p


def zero(p):
    return clear(p) == ZERO


def same(p, q):
    return p == q or zero(p - q)
