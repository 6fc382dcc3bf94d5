"""What ranges loops visit: counters, bounds, steps, and early exits, read off
the fixpoint of the loop analysis."""
from .poly import Poly, K, ONE, ZERO
from .logic import ge
from .loops import findsyms


def endbound(exits, backs, hv, k):
    """E such that the loop goes on exactly while hv < E (k = 1) / hv > E (k = -1)"""
    at = hv.as_atom()
    cand = None
    for st in exits:
        v = st.facts.norm(hv)
        here = {}
        if not (v.deep() & hv.deep()):
            here[repr(v)] = v
        for b in st.facts.ineq:
            if b.op == "ge" and at is not None and b.a.t.get(((at.id, 1),)) == k:
                E = hv - b.a if k == 1 else b.a + hv
                if not (E.deep() & hv.deep()):
                    E = st.facts.norm(E)
                    here[repr(E)] = E
        for b in st.facts.eqs() if hasattr(st.facts, "eqs") else ():
            pass
        cand = here if cand is None else {x: y for x, y in cand.items() if x in here}
    for E in (cand or {}).values():
        if all(b.facts.prove(ge((E - hv if k == 1 else hv - E) - ONE), 1) for b in backs):
            return E
    return None


class Range:
    """the counter hv visits lo, lo+1, ..., hi-1 (ascending or descending)"""
    def __init__(self, loop, hv, lo, hi, step):
        self.loop, self.hv, self.lo, self.hi, self.step = loop, hv, lo, hi, step

    def __repr__(self):
        return "%r in [%s, %s) step %s" % (self.hv, self.lo, self.hi, self.step)


def ranges(loop, back=None):
    """unit-step counters of a loop whose only exits are through its condition"""
    r = loop.__dict__.get("_ranges")
    if r is not None and r[0] is loop.last:
        return r[1]
    out = []
    exits = [(x, why, head) for _, head, _, ex in loop.last for x, sig, why in ex if not x.facts.dead]
    backs = [(head, b) for _, head, bs, _ in loop.last for b in bs]
    early = [x for x, why, _ in exits if why != "cond"]
    if backs:
        for c in loop.numeric():
            if c[0] not in ("s", "t"):
                continue
            hv = loop.headval(c, None)
            if not isinstance(hv, Poly):
                continue
            try:
                st = {b.facts.norm(loop.getq(b, c) - hv).cval() for _, b in backs}
                lo = loop.getq(loop.entry, c)
            except Exception:
                continue
            if len(st) != 1 or not isinstance(lo, Poly):
                continue
            k = st.pop()
            if k not in (1, -1):
                continue
            hi = endbound([x for x, why, _ in exits if why == "cond"], [b for _, b in backs], hv, k)
            if hi is None:
                continue
            lo = loop.entry.facts.norm(lo)
            if k == 1:
                out.append(Range(loop, hv, lo, hi, 1))
            else:
                out.append(Range(loop, hv, hi + ONE, lo + ONE, -1))
    loop._ranges = (loop.last, out, early)
    return out


def early(loop):
    ranges(loop)
    return loop._ranges[2]


def nest(loop):
    out = []
    while loop is not None:
        out.append(loop)
        loop = loop.parent
    return out[::-1]


def localsyms(st, tag="gen", width=None):
    """symbolic local vectors of a state: (root, path, Sym)"""
    out = []
    for r, v in st.store.items():
        if r in (("sim",), ("body",)):
            continue
        for p, s in findsyms(v, ()):
            if s.tag == tag and (width is None or len(s.fields()) == width):
                out.append((r, p, s))
    return out
