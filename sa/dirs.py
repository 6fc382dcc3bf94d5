"""Which neighbours and directions are tried (C24)."""
from . import cover, logic as L
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, atom, subst
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import NS, TOLP
from .values import *
from .soil import Obl, holds, path_of, peek, field_lv, area_loops, repose
from .poly import is_int, CELLZ
from itertools import product
from fractions import Fraction as Fr

FOUR = {(1, 0), (-1, 0), (0, 1), (0, -1)}
EIGHT = {(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)}
NINE = EIGHT | {(0, 0)}


def tables(loop):
    """[(root, rows, counter range)] : tables of column offsets that a loop counts through"""
    out = []
    for r in cover.ranges(loop):
        if r.hi.cval() is None or r.lo != ZERO:
            continue
        for root, v in loop.entry.store.items():
            rows = v.items if isinstance(v, VList) else v.rows if isinstance(v, Perm) else None
            if rows and r.hi.cval() <= len(rows) and all(isinstance(x, VList) and len(x.items) == 2 and all(isinstance(y, Poly) for y in x.items) for x in rows):
                out.append((root, rows, r))
    return out


def offsets(rows, f):
    """the possible contents of a table: one set per assignment of signs"""
    rows = [[f.norm(y) for y in x.items] for x in rows]
    signs = sorted({a for x in rows for y in x for m in y.t for a, _ in m if ATOMS[a].name == "sign"})
    out = []
    for v in product((-1, 1), repeat=len(signs)):
        sub = {a: K(c) for a, c in zip(signs, v)}
        t = [tuple(subst(y, sub).cval() if y.cval() is None else y.cval() for y in x) for x in rows]
        out.append(t)
    return out


class Dirs(Obl):
    """a loop over the table of all required directions, left early only when nothing is left to place"""

    def __init__(self, want, what, first=None):
        super().__init__()
        self.want, self.what, self.first = want, what, first
        self.seen = {}
        self.where = None

    def usable(self, ip, loop, tab, head, back):
        return True

    def iteration(self, ip, loop, head, back):
        for tab in tables(loop):
            if len(tab[1]) < 3 or not self.usable(ip, loop, tab, head, back):
                continue
            k = id(loop)
            if k not in self.seen:
                self.seen[k] = (ip, loop, tab)
                self.table(ip, loop, tab)
            self.step(ip, loop, tab, head, back)

    def table(self, ip, loop, tab):
        root, rows, r = tab
        loc = ip.loc(loop.s)
        for t in offsets(rows, loop.entry.facts):
            n = r.hi.cval()
            used = t if n == len(t) else None
            self.ob(loc, used is not None, "not all directions of the table are tried", table=t, tried=n)
            self.ob(loc, set(t) >= self.want, "%s: the directions tried do not include %s" % (self.what, sorted(self.want - set(t))), table=t)
            self.ob(loc, set(t) <= self.want, "%s: directions are tried that are not among the %d documented ones" % (self.what, len(self.want)), table=t)
            if self.first is not None:
                self.ob(loc, t[0] == self.first, "%s: the nominal column is not examined first" % self.what, table=t)
        for x in cover.early(loop):
            self.early(ip, loop, tab, x)

    def early(self, ip, loop, tab, x):
        self.ob(ip.loc(loop.s), False, "%s: the loop over the directions can end before all were tried" % self.what, path=path_of(x))

    def step(self, ip, loop, tab, head, back):
        pass

    def exit(self, ip, st, sig, fd):
        self.where = ip.loc(fd)

    def done(self):
        if not self.seen:
            self.fail(self.where or ("?", 0), "%s: no loop over the directions was found" % self.what)


def sources(ip, loop):
    """(loop, counter, kind, root, path) of the enclosing loop over all candidates"""
    p = loop.parent
    while p is not None:
        for r in cover.ranges(p):
            if r.lo != ZERO:
                continue
            e = p.entry
            if r.hi == e.facts.norm(e.store[("sim",)].f["body_soil_pos_"].size[0]):
                return p, r.hv, "rec", ("sim",), (("f", "body_soil_pos_"),)
            for w in (2, 3):
                for root, path, sym in cover.localsyms(e, width=w):
                    if r.hi == e.facts.norm(sym.size[0]):
                        return p, r.hv, "cell", root, path
        hv = everyrecord(p)
        if hv is not None:
            return p, hv, "rec", ("sim",), (("f", "body_soil_pos_"),)
        p = p.parent
    return None


def everyrecord(p):
    """the counter of a loop over all parcels whose number may grow meanwhile: from zero by one until no parcel is left"""
    d = growing(p)
    if d is None:
        return None
    hv = d - ONE
    for _, _, _, ex in p.last:
        for x, sig, why in ex:
            if why == "cond" and not x.facts.dead and not holds(x.facts, ge(hv - x.store[("sim",)].f["body_soil_pos_"].size[0])):
                return None
    return hv


class Neighbours(Dirs):
    """avalanches: every candidate, four adjacent columns each"""

    def __init__(self, kind):
        super().__init__(FOUR, "avalanches")
        self.kind = kind

    def table(self, ip, loop, tab):
        super().table(ip, loop, tab)
        s = sources(ip, loop)
        loc = ip.loc(loop.s)
        if self.ob(loc, s is not None and s[2] == self.kind, "the neighbours are not examined for every candidate"):
            self.ob(ip.loc(s[0].s), not cover.early(s[0]), "the loop over the candidates can end before all were examined")


class Candidates(Obl):
    """every column of the active area higher than a neighbour by more than the allowed difference is a candidate"""

    def __init__(self):
        super().__init__()
        self.seen = False
        self.where = ("?", 0)

    def exit(self, ip, st, sig, fd):
        self.where = ip.loc(fd)

    def iteration(self, ip, loop, head, back):
        ij = area_loops(ip, loop, head, "impact_area_")
        if ij is None:
            return
        ns = cover.nest(loop)
        i, j = ij
        # the innermost of the two
        f = back.facts
        if loop is not ns[-1]:
            return
        self.seen = True
        loc = ip.loc(loop.s)
        pushed = [e for e in back.seg[len(head.seg):] if e.kind == "vpush"]
        good = False
        for e in pushed:
            v = e.val
            items = v.items if isinstance(v, VList) else list(v.f.values()) if isinstance(v, Struct) else []
            items = [f.norm(x) for x in items if isinstance(x, Poly)]
            if f.norm(i) in items and f.norm(j) in items:
                good = True
            else:
                self.ob(loc, False, "a candidate is recorded that is not the column under examination", recorded=items)
        if good:
            self.ob(loc, True, "")
            return
        D = repose()
        t = f.norm(peek(ip, back, "terrain_", (i, j))[0][1])
        for a, b in sorted(FOUR):
            for s, n in peek(ip, back, "terrain_", (f.norm(i + K(a)), f.norm(j + K(b)))):
                g = s.facts
                self.ob(loc, holds(g, ge(D + A(CELLZ).scale(Fr(1, 2)) - (g.norm(t) - g.norm(n)))), "a column that is too high above its neighbour (%d, %d) may not be a candidate" % (a, b),
                        column=t, neighbour=n, path=path_of(s))

    def done(self):
        if not self.seen:
            self.fail(self.where, "no loop examines every column of the active area")


class Clearing(Dirs):
    """ground pushed out of a wall: every passed-over column has no room; distances grow by one"""

    def __init__(self):
        super().__init__(EIGHT, "clearing of ground soil")

    def early(self, ip, loop, tab, x):
        # leaving the directions is allowed when the whole column has been placed
        self.ob(ip.loc(loop.s), any(holds(x.facts, ge(TOLP - v)) for v in self.floats(loop, x)),
                "%s: the loop over the directions can end with soil left to place" % self.what, path=path_of(x))

    def floats(self, loop, x):
        out = []
        for r, v in x.store.items():
            e = loop.entry.store.get(r)
            if isinstance(v, Poly) and isinstance(e, Poly) and not is_int(e) and e != v:
                out.append(v)
        return out

    def step(self, ip, loop, tab, head, back):
        root, rows, r = tab
        loc = ip.loc(loop.s)
        s = sources(ip, loop)
        if not self.ob(loc, s is not None, "the directions are not tried for every candidate"):
            return
        self.ob(ip.loc(s[0].s), not cover.early(s[0]), "the loop over the candidates can end before all were handled")
        col = self.column(ip, loop, tab, back, s)
        if not self.ob(loc, col is not None, "the column tried is not the source shifted by a growing multiple of the direction"):
            return
        st, i, j = col
        for slot in (0, 2):
            pass
        for s1, t in peek(ip, st, "terrain_", (i, j)):
            st1 = [(s1, [])]
            for k in range(4):
                st1 = [(s3, ws + [w]) for s2, ws in st1 for s3, w in peek(ip, s2, "body_", (K(k), i, j))]
            for s2, w in st1:
                g = s2.facts
                if g.dead:
                    continue
                pres = [Or(ne(w[0]), ne(w[1])), Or(ne(w[2]), ne(w[3]))]
                done = Or(*[ge(TOLP - v) for v in self.floats(loop, back)])
                self.ob(loc, holds(g, Or(done, *pres)), "a column without a wall is passed over although soil is left", path=path_of(s2))
                tt = g.norm(t)
                room = Or(And(pres[0], ge(tt + TOLP - w[0])), And(pres[1], ge(tt + TOLP - w[2])), done)
                self.ob(loc, holds(g, room), "a column with room below its lowest wall is passed over although soil is left", path=path_of(s2))

    def column(self, ip, loop, tab, back, s):
        """the examined column: source + distance * direction, the distance being a counter that starts at one"""
        root, rows, r = tab
        p, hv, kind, sroot, spath = s
        st = back
        d = [ip.load(st.copy(), LV(root).i(r.hv).i(K(c)), {"l": 0})[0][1] for c in (0, 1)]
        dist = self.distance(loop, p, st)
        if dist is None:
            return None
        l = LV(sroot, spath)
        sym = ip.load(st.copy(), l, {"l": 0})[0][1] if kind == "cell" else st.store[("sim",)].f["body_soil_pos_"]
        if kind == "cell":
            fs = sorted(sym.fields())
            fi, fj = self.coords(fs)
        else:
            fi, fj = "ii", "jj"
        for s1, a in ip.symget(st.copy(), l, len(spath), (hv,), fi, {"l": 0}):
            for s2, b in ip.symget(s1, l, len(spath), (hv,), fj, {"l": 0}):
                f = s2.facts
                return s2, f.norm(a + dist * d[0]), f.norm(b + dist * d[1])
        return None

    def coords(self, fs):
        return fs[1], fs[2]

    def distance(self, loop, src, st):
        """the k-th round of a loop between the directions and the source is at distance k:
        counter + 1 - its first value"""
        q = loop.parent
        while q is not None and q is not src:
            d = growing(q)
            if d is not None:
                return st.facts.norm(d)
            q = q.parent
        return None


def growing(q):
    for c in q.numeric():
        if c[0] not in ("s", "t"):
            continue
        try:
            hv = q.headval(c, None)
            e0 = q.entry.facts.norm(q.getq(q.entry, c)).cval()
        except Exception:
            continue
        if not isinstance(hv, Poly) or e0 is None:
            continue
        bs = [b for _, _, backs, _ in q.last for b in backs]
        if bs and all(b.facts.norm(q.getq(b, c) - hv) == ONE for b in bs):
            return hv + K(1 - e0)
    return None


class Relocation(Dirs):
    """carried soil: the nominal column, then its eight neighbours, for every parcel"""

    def __init__(self):
        super().__init__(NINE, "relocation of carried soil", (0, 0))

    def table(self, ip, loop, tab):
        super().table(ip, loop, tab)
        loc = ip.loc(loop.s)
        p, ok = loop.parent, None
        n = ip.model.simout().f["body_soil_pos_"].size[0]
        while p is not None and ok is None:
            for r in cover.ranges(p):
                if r.lo == ZERO and p.entry.facts.norm(r.hi - n) == ZERO:
                    ok = p
            p = p.parent
        if self.ob(loc, ok is not None, "not every parcel is relocated"):
            self.ob(ip.loc(ok.s), not cover.early(ok), "the loop over the parcels can end before all were relocated")

    def early(self, ip, loop, tab, x):
        self.ob(ip.loc(loop.s), any(e.kind == "push" for e in x.seg), "%s: the loop over the directions can end before all were tried" % self.what, path=path_of(x))


class Pushing(Clearing):
    """body soil pushed out of a wall: each of eight directions is followed, one column farther each time,
    until the soil is placed or a wall is met"""

    def __init__(self):
        super().__init__()
        self.what = "clearing of body soil"
        self.inner = 0

    def step(self, ip, loop, tab, head, back):
        pass

    def table(self, ip, loop, tab):
        super().table(ip, loop, tab)
        s = sources(ip, loop)
        if self.ob(ip.loc(loop.s), s is not None and s[2] == "rec", "the directions are not tried for every parcel"):
            self.ob(ip.loc(s[0].s), not cover.early(s[0]), "the loop over the parcels can end before all were handled")

    def iteration(self, ip, loop, head, back):
        super().iteration(ip, loop, head, back)
        if loop.parent is None:
            return
        for tab in tables(loop.parent):
            if len(tab[1]) < 3:
                continue
            s = sources(ip, loop.parent)
            d = growing(loop)
            loc = ip.loc(loop.s)
            if s is None or d is None:
                self.ob(loc, False, "the columns in a direction are not tried one after the other")
                return
            if not getattr(loop, "_pushed", False):
                loop._pushed = True
                for _, h, _, ex in loop.last:
                    for x, sig, why in ex:
                        if why != "cond" and not x.facts.dead:
                            self.stop(ip, loop, tab, s, d, x, loc)
            self.inner += 1
            ts, fs = ip.evcond(loop.cond, back.copy(), loop.cv, loop.s)
            for x in fs:
                if not x.facts.dead:
                    self.stop(ip, loop, tab, s, d, x, loc)
            for x in ts:
                if not x.facts.dead:
                    self.stop(ip, loop, tab, s, d, x, loc, "a column without a wall is passed over although soil is left")

    def stop(self, ip, loop, tab, s, d, x, loc, msg="a direction can be given up with soil left although no wall is in the way"):
        root, rows, r = tab
        p, hv, kind, sroot, spath = s
        off = [ip.load(x.copy(), LV(root).i(r.hv).i(K(c)), {"l": 0})[0][1] for c in (0, 1)]
        l = LV(sroot, spath)
        rem = Or(*[ge(TOLP - v) for v in self.floats(loop.parent, x)])
        for s1, a in ip.symget(x.copy(), l, len(spath), (hv,), "ii", {"l": 0}):
            for s2, b in ip.symget(s1, l, len(spath), (hv,), "jj", {"l": 0}):
                i, j = s2.facts.norm(a + d * off[0]), s2.facts.norm(b + d * off[1])
                cur = [(s2, [])]
                for k in range(4):
                    cur = [(s4, ws + [w]) for s3, ws in cur for s4, w in peek(ip, s3, "body_", (K(k), i, j))]
                for s3, w in cur:
                    if not s3.facts.dead:
                        self.ob(loc, holds(s3.facts, Or(rem, *[ne(y) for y in w])), msg, path=path_of(s3))

    def done(self):
        super().done()
        if not self.inner:
            self.fail(self.where or ("?", 0), "no loop follows a direction")


def dir_jobs():
    from . import run, soil
    W = {"MoveIntersectingBodySoil": 60, "RelaxBodySoil": 50, "UpdateBodySoil": 20}
    out = []
    for fn, ls in (("RelaxTerrain", [lambda: Neighbours("cell"), Candidates]), ("RelaxBodySoil", [lambda: Neighbours("rec")]),
                   ("UpdateBodySoil", [Relocation]), ("MoveIntersectingBody", [Clearing, soil.GroundCleared]),
                   ("MoveIntersectingBodySoil", [Pushing])):
        j = run.interp_job(fn, ls, **soil.SOIL_JOBS[fn])
        j.weight = W.get(fn, 5)
        out.append(j)
    return out
