"""C28: the orders in which things are treated are uniformly random permutations."""
from .poly import K, ONE, ZERO
from .soil import Obl, SOIL_JOBS
from . import cover


def draws(seg):
    """swaps of the segment with the range their drawn index comes from"""
    rng, out = {}, []
    used = set()
    for e in seg:
        if e.kind == "rng":
            rng[e.out] = e
        elif e.kind == "swap":
            for x, y in ((e.a, e.b), (e.b, e.a)):
                if y in rng and x not in rng:
                    out.append((e, x, rng[y], y in used))
                    used.add(y)
                    break
            else:
                out.append((e, None, None, False))
    return out


class Shuffle(Obl):
    """every shuffle draws the partner of each position uniformly from the
    positions not settled yet (or already settled, itself included)"""

    def __init__(self, tables=0, lists=0):
        super().__init__()
        self.tables, self.lists = tables, lists
        self.full, self.shuf, self.where = {}, set(), ("?", 0)
        self.pend = None

    def size(self, st, e):
        return st.facts.norm(e.n)

    def cut(self, ip, st, seg, why, node):
        if why == "back":
            self.pend = seg
        loc = ip.loc(node) if isinstance(node, dict) else self.where
        groups = {}
        for e, x, r, again in draws(seg):
            if x is not None and x.cval() is None:
                continue        # a position that a loop steps through: see iteration
            groups.setdefault(repr(e.lv), []).append((e, x, r, again))
        for g in groups.values():
            e = g[0][0]
            n = self.size(st, e)
            n = n.cval()
            if n is None:
                continue
            ok = all(x is not None and not again for _, x, _, again in g)
            got = {}
            if ok:
                for _, x, r, _ in g:
                    got[x.cval()] = (st.facts.norm(r.lo).cval(), st.facts.norm(r.hi).cval())
                ok = len(got) == len(g)
            down = {k: (0, k) for k in range(1, n)}
            up = {k: (k, n - 1) for k in range(n - 1)}
            got2 = {k: v for k, v in got.items() if v != (k, k)}
            ok = ok and got2 in (down, up)
            self.ob(e.loc, ok, "an order is not drawn uniformly from all orders", ranges=got, of=n)
            if ok and why == "enter":
                self.shuf.add((e.loc, "table", st.x.get("ldepth", 0)))
            if ok:
                self.shuf.add((e.loc, "table", 0))
        if why == "enter":
            self.full.setdefault(id(node), (loc, []))[1].append(bool(groups))

    def iteration(self, ip, loop, head, back):
        if back.facts.dead:
            return
        seg = self.pend if self.pend is not None else back.seg[len(head.seg):]
        self.pend = None
        f = back.facts
        for e, x, r, again in draws(seg):
            if x is not None and x.cval() is not None:
                continue
            n = self.size(back, e)
            ok = x is not None and not again
            if ok:
                ok = False
                for q in cover.ranges(loop):
                    if f.norm(q.hv - x) != ZERO or cover.early(loop):
                        continue
                    lo, hi = f.norm(r.lo), f.norm(r.hi)
                    if lo == ZERO and f.norm(hi - x) == ZERO and q.lo.cval() in (0, 1) and f.norm(q.hi - n) == ZERO:
                        ok = True
                    if f.norm(lo - x) == ZERO and f.norm(hi + ONE - n) == ZERO and q.lo == ZERO and f.norm(q.hi - n).cval() in (0, -1):
                        ok = True
            self.ob(e.loc, ok, "an order is not drawn uniformly from all orders", position=x, low=r and r.lo, high=r and r.hi, of=n,
                    loop=[repr(q) for q in cover.ranges(loop)])
            if ok:
                self.shuf.add((e.loc, "list", 0))

    def exit(self, ip, st, sig, fd):
        self.where = ip.loc(fd)

    def done(self):
        t = {l for l, k, d in self.shuf if k == "table" and d >= (1 if self.tables == 1 else 0)}
        if self.tables:
            self.ob(self.where, bool(t), "the directions are not put into a new random order for every column"
                    if self.tables == 1 else "the table of the noise is not put into a random order")
            for loc, g in self.full.values():
                if any(g):
                    self.ob(loc, all(g), "the order of the directions is not drawn on every path")
        if self.lists:
            self.ob(self.where, any(k == "list" for l, k, d in self.shuf), "the list is not put into a random order before it is worked through")


def shuffle_jobs():
    from . import run, initial, step
    out = []
    for f, kw, t, l in (("RelaxTerrain", SOIL_JOBS["RelaxTerrain"], 1, 1), ("RelaxBodySoil", SOIL_JOBS["RelaxBodySoil"], 1, 0),
                        ("MoveIntersectingBodySoil", SOIL_JOBS["MoveIntersectingBodySoil"], 1, 0),
                        ("MoveIntersectingBody", SOIL_JOBS["MoveIntersectingBody"], 1, 0),
                        ("SoilDynamics::Init", dict(model=initial.InitModel), 2, 0),
                        ("SoilDynamics::Step", dict(model=step.StepModel), 0, 1), ("SoilDynamics::Step", dict(model=step.StepModel, nth=1), 0, 1)):
        j = run.interp_job(f, [lambda t=t, l=l: Shuffle(t, l)], **kw)
        j.weight = {"MoveIntersectingBodySoil": 60, "RelaxBodySoil": 50}.get(f, 3)
        out.append(j)
    return out
