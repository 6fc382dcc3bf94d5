"""Entering a wall in the body layers, and rasterising a wall (C17)."""
from . import logic as L, run, cover
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, CELLXY, CELLZ, atom, fresh
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS, TOLP, analyse, PURE
from .values import *
from .soil import Obl, holds, peek, path_of
from fractions import Fraction as Fr

INVXY = Poly({((CELLXY.id, -1),): 1})
INVZ = Poly({((CELLZ.id, -1),): 1})


def signs(st):
    """the state split by the signs of the distances it compares"""
    out = [st]
    ab = set()
    for b in list(st.facts.ineq) + list(st.facts.clauses):
        ab |= {x for x in b.deep() if ATOMS[x].kind == "app" and ATOMS[x].name == "abs"}
    ab |= {x for x in st.facts.sub if ATOMS[x].kind == "app" and ATOMS[x].name == "abs"}
    for x in sorted(ab):
        nxt = []
        for s in out:
            p = ATOMS[x].args[0]
            for sg in (1, -1):
                t = s.copy()
                if t.facts.assume(ge(p.scale(sg))) and t.facts.assume(eq(A(ATOMS[x]) - p.scale(sg))) and not t.facts.dead:
                    nxt.append(t)
        out = nxt
    return out


# ------------------------------------------------------------ one column
class PosModel(Model):
    """the new extent is a pair of heights, the lower first"""

    def small_loop(self, ip, s, st, cond, inc, body):
        return True

    def bind(self, fd, st):
        vs = super().bind(fd, st)
        n = 0
        for k, v in enumerate(vs):
            if isinstance(v, Poly) and v.as_atom() is not None and v.as_atom().name.startswith("arg_") and not v.as_atom().isint:
                vs[k] = A(atom("par", ("new_min", "new_max")[min(n, 1)], ht=True))
                n += 1
            elif isinstance(v, Poly) and v.as_atom() is not None and v.as_atom().name.startswith("arg_"):
                vs[k] = A(atom("par", ("col_i", "col_j")[0 if k == [x for x, y in enumerate(vs) if isinstance(y, Poly) and y.as_atom() is not None and y.as_atom().isint][0] else 1], isint=True))
        st.facts.assume(gt(A(atom("par", "new_max", ht=True)) - A(atom("par", "new_min", ht=True))))
        return vs


class NewPos(Obl):
    """the extents of a column after a wall was entered cover those before and
    the new one, and stay proper and disjoint"""

    def exit(self, ip, st, sig, fd):
        for s in signs(st):
            self.decide(ip, s, fd)

    def decide(self, ip, st, fd):
        loc = ip.loc(fd)
        mn, mx = A(atom("par", "new_min", ht=True)), A(atom("par", "new_max", ht=True))
        ii, jj = [A(atom("par", n, isint=True)) for n in ("col_i", "col_j")]
        m0 = ip.model.simout().f["body_"]
        old = [A(ip.cell(m0, (K(n), ii, jj), "", ("float",), ht=True)) for n in range(4)]
        s0 = st.copy()
        ip.model.column(ip, s0, ii, jj, m0, 0)
        for e in st.seg:
            if e.kind == "w":
                self.ob(e.loc, e.tag == "body" and st.facts.norm(e.key[1]) == ii and st.facts.norm(e.key[2]) == jj,
                        "entering a wall changes something else than the column given", key=e.key)
        new = []
        for n in range(4):
            r = [x for x in peek(ip, s0, "body_", (K(n), ii, jj)) if not x[0].facts.dead]
            new.append(s0.facts.norm(r[0][1]))
        f = s0.facts
        pres = [Or(ne(new[n]), ne(new[n + 1])) for n in (0, 2)]
        opres = [Or(ne(old[n]), ne(old[n + 1])) for n in (0, 2)]

        def covered(lo, hi):
            return Or(*[And(pres[k], ge(lo - new[2 * k]), ge(new[2 * k + 1] - hi)) for k in (0, 1)])
        self.ob(loc, holds(f, covered(mn, mx)), "a wall may be left out of the column it crosses", old=old, new=new, path=path_of(s0))
        for k in (0, 1):
            self.ob(loc, holds(f, Or(Not(opres[k]), covered(old[2 * k], old[2 * k + 1]))),
                    "a wall that was already in the column may be cut", slot=2 * k, old=old, new=new, path=path_of(s0))
            self.ob(loc, holds(f, Or(Not(pres[k]), gt(new[2 * k + 1] - new[2 * k]))),
                    "a wall may get its bottom above its top", slot=2 * k, new=new, path=path_of(s0))
        self.ob(loc, holds(f, Or(Not(pres[0]), Not(pres[1]), gt(new[2] - new[1]), gt(new[0] - new[3]))),
                "the two walls of a column may overlap or touch", new=new, path=path_of(s0))
        # nothing is invented: every end of a wall is an end of the old walls or of the new one
        for k in (0, 1):
            for e in (0, 1):
                x = new[2 * k + e]
                self.ob(loc, holds(f, Or(Not(pres[k]), eq(x - (mn, mx)[e]), *[And(opres[q], eq(x - old[2 * q + e])) for q in (0, 1)])),
                        "a wall may be given an extent that nothing has", slot=2 * k, new=new, path=path_of(s0))


# ------------------------------------------------------------ a sorted list of cells
class RunModel(Model):
    def otherarg(self, p, t, fd):
        if t == ("vec", ("vec", ("int",))):
            lt = {str(j): ("int",) for j in range(3)}
            return Sym("wall", "gen", 1, ("fields", ("0", "1", "2"), ("list",), lt), {f: "0" for f in "012"}, (),
                       (self.par("ncell", isint=True, pos=True),))

    def summary(self, ip, st, fd, vs, e, this):
        if fd["name"] == NS + "IncludeNewBodyPos":
            st = st.copy()
            vv = []
            for v in vs:
                if isinstance(v, RefV):
                    v = ip.load(st, v.lv, e)[0][1]
                if isinstance(v, Poly):
                    vv.append(st.facts.norm(v))
            ip.emit(st, "include", e, args=vv[:4], tol=vv[4:])
            return [(st, None)]
        return super().summary(ip, st, fd, vs, e, this)


class Runs(Obl):
    """every run of cells of one column is entered once, from the bottom of its
    first cell to the top of its last one"""

    def __init__(self):
        super().__init__()
        self.its = []
        self.loops = {}
        self.last = []

    def cut(self, ip, st, seg, why, node):
        inc = [e for e in seg if e.kind == "include"]
        if why == "exit":
            self.last.append((st, inc))

    def iteration(self, ip, loop, head, back):
        self.loops[id(loop)] = (ip, loop)

    def row(self, ip, st, k):
        sym = None
        for r, v in st.store.items():
            if isinstance(v, Sym) and v.name == "wall":
                sym = v
        return [A(ip.cell(sym, (k,), str(n), ("int",))) for n in range(3)] if sym is not None else None

    def ext(self, ip, st, kk):
        v = A(ip.cell(ip.model.grid().f["vect_z_"], (kk,), "", ("float",), ht=True))
        return v - C, v

    def done(self):
        n = 0
        for ip, loop in self.loops.values():
            rs = [r for r in cover.ranges(loop)]
            backs = [(head, b) for _, head, bs, _ in loop.last for b in bs]
            accs = set()
            for head, b in backs:
                for e in b.seg[len(head.seg):]:
                    if e.kind == "include":
                        accs.add(tuple(e.args))
            if not accs:
                continue
            n += 1
            loc = ip.loc(loop.s)
            self.ob(loc, len(accs) == 1 and not cover.early(loop), "columns are entered in different ways in one loop", args=accs)
            acc = next(iter(accs))
            rr = [r for r in rs if r.step == 1]
            size = A(atom("par", "ncell", isint=True))
            ok = [r for r in rr if r.hi == size and r.lo in (ZERO, ONE)]
            self.ob(loc, bool(ok), "not every cell of a wall is visited", ranges=rs)
            if not ok:
                continue
            hv, lo = ok[0].hv, ok[0].lo
            ats = [a.as_atom() for a in acc]
            cands = {}
            for c in loop.numeric():
                h = loop.headval(c, None)
                for k, a in enumerate(acc):
                    if isinstance(h, Poly) and h == a:
                        cands[k] = c
            self.ob(loc, len(cands) == 4, "what is entered for a column is not what was collected for it", args=acc)
            if len(cands) != 4:
                continue
            ent = loop.entry
            r0 = self.row(ip, ent, ZERO)
            e0 = self.ext(ip, ent, r0[2])
            w = [r0[0], r0[1], e0[0], e0[1]]
            for k, t in ((0, "column"), (1, "column"), (2, "bottom"), (3, "top")):
                v = ent.facts.norm(loop.getq(ent, cands[k]))
                self.ob(loc, v == ent.facts.norm(w[k]), "the %s of the first cell is not taken up" % t, value=v)
            for head, b in backs:
                f = b.facts
                row = self.row(ip, b, hv)
                x = self.ext(ip, b, row[2])
                now = [f.norm(loop.getq(b, cands[k])) for k in range(4)]
                inc = [e for e in b.seg[len(head.seg):] if e.kind == "include"]
                same = And(eq(row[0] - acc[0]), eq(row[1] - acc[1]))
                if inc:
                    self.ob(loc, len(inc) == 1 and holds(f, Not(same)), "a column may be entered before all its cells were seen", path=path_of(b))
                    want = [row[0], row[1], x[0], x[1]]
                else:
                    self.ob(loc, holds(f, same), "a column may be dropped without being entered", path=path_of(b))
                    want = [acc[0], acc[1], acc[2], x[1]]
                for k, t in ((0, "column"), (1, "column"), (2, "bottom"), (3, "top")):
                    self.ob(loc, holds(f, eq(now[k] - want[k])), "the %s of a run of cells is not kept up" % t, value=now[k], expected=want[k], path=path_of(b))
            for st, inc in self.last:
                fi = [e for e in inc]
                vals = []
                self.ob(loc, len(fi) == 1, "the last column of a wall is not entered")
                if len(fi) == 1:
                    # the accumulators at loop exit
                    okv = False
                    for _, head, _, ex in loop.last:
                        for x, sig, why in ex:
                            v = [x.facts.norm(loop.getq(x, cands[k])) for k in range(4)]
                            if all(st.facts.norm(v[k]) == st.facts.norm(fi[0].args[k]) or v[k] == fi[0].args[k] for k in range(4)):
                                okv = True
                    self.ob(fi[0].loc, okv, "the last column of a wall is entered with another extent than the one collected", args=fi[0].args)
        self.found = n


# ------------------------------------------------------------ rectangles and triangles
class WallModel(Model):
    """the edges are replaced by summaries"""
    npts = 4

    def bind(self, fd, st):
        self.k = 0
        return super().bind(fd, st)

    def vecarg(self, n, p, fd):
        return VList([A(atom("par", "%s%d" % ("abcd"[n], a))) for a in range(3)], ("float",))

    def summary(self, ip, st, fd, vs, e, this):
        if fd["name"] == NS + "CalcLinePos":
            st = st.copy()
            vv = []
            for v in vs[:2]:
                if isinstance(v, RefV):
                    v = ip.load(st, v.lv, e)[0][1]
                vv.append(tuple(st.facts.norm(x) for x in v.items))
            k = len(st.x.get("edges", ()))
            st.x["edges"] = st.x.get("edges", ()) + ((tuple(vv), ip.loc(e)),)
            t = {str(j): ("int",) for j in range(3)}
            return [(st, Sym("edge%d" % k, "gen", 1, ("fields", ("0", "1", "2"), ("list",), t), {f: "0" for f in t}, (),
                             (self.par("nedge%d" % k, isint=True, nonneg=True),)))]
        return super().summary(ip, st, fd, vs, e, this)

    dec = None          # (names, args) of the decomposition

    def summaryx(self, ip, st, fd, vs, e):
        pass


from .algebra import zero, same


def vals(ip, st, vs, e):
    out = []
    for v in vs:
        if isinstance(v, RefV):
            v = ip.load(st, v.lv, e)[0][1]
        out.append(v)
    return out


class PlaneModel(WallModel):
    """the decomposition of the cell corners is replaced by a summary too"""

    def summary(self, ip, st, fd, vs, e, this):
        nm = fd["name"][len(NS):]
        if nm in ("DecomposeVectorRectangle", "DecomposeVectorTriangle"):
            st = st.copy()
            vv = vals(ip, st, vs, e)
            st.x["dec"] = (tuple(tuple(st.facts.norm(x) for x in v.items) for v in vv[:3]), tuple(st.facts.norm(v) for v in vv[3:7]), ip.loc(e), nm)
            lx, ly = st.x["dec"][1][2:]

            def arr(n, t):
                return Sym(n, "gen", 2, t, {"": "0"}, (), (lx, ly))
            return [(st, VList([arr("dec1", ("float",)), arr("dec2", ("float",)), arr("decin", ("bool",)), self.par("ndec", isint=True, nonneg=True)]))]
        return super().summary(ip, st, fd, vs, e, this)


def diffs(loop, head, back):
    """element writes of one iteration to local vectors: root -> [(key, field, value)]"""
    out = []
    for r, v in back.store.items():
        if r in (("sim",), ("body",)):
            continue
        h = head.store.get(r)
        if isinstance(v, Sym) and isinstance(h, Sym):
            new = [x for x in v.log if x not in h.log]
            if new:
                out.append((r, v, h, new))
    return out


class Plane(Obl):
    """the cells of a rectangle or triangle: four around every cell corner inside
    it, at the height of the plane, and those of all its edges"""

    def __init__(self, n):
        super().__init__()
        self.sides = n
        self.its = []
        self.ex = []
        self.app = []

    def iteration(self, ip, loop, head, back):
        if back.x.get("dec"):
            self.its.append((ip, loop, head, back))

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind == "append":
                src = e.src
                self.app.append((e, st))

    def exit(self, ip, st, sig, fd):
        self.ex.append((ip, st, sig, fd))

    def pts(self):
        return [[A(atom("par", "%s%d" % (c, a))) for a in range(3)] for c in "abcd"[:self.sides]]

    def index(self, m, p):
        g = m.grid()
        return [p[0] * INVXY + g.f["half_length_x_"], p[1] * INVXY + g.f["half_length_y_"], p[2] * INVZ + g.f["half_length_z_"] - ONE]

    def done(self):
        if not self.ex:
            return
        ip, st, sig, fd = self.ex[0]
        loc = ip.loc(fd)
        P = self.pts()
        idx = [self.index(ip.model, p) for p in P]
        dec = [s.x.get("dec") for _, s, _, _ in self.ex]
        self.ob(loc, all(d is not None for d in dec), "the inner part of a wall is not rasterised")
        if any(d is None for d in dec):
            return
        last = (3 if self.sides == 4 else 2)
        u = [idx[1][a] - idx[0][a] for a in range(3)]
        w = [idx[last][a] - idx[0][a] for a in range(3)]
        for (_, s, _, _), ((x, y, o), (mx, my, lx, ly), l, nm) in zip(self.ex, dec):
            f = s.facts.copy()
            self.ob(l, nm.endswith("Rectangle" if self.sides == 4 else "Triangle"), "a wall is decomposed as another shape")
            self.ob(l, all(same(o[a], idx[0][a]) for a in range(3)), "the decomposition does not start from the first corner of the wall", origin=o)
            self.ob(l, all(same(x[a], u[a]) and same(y[a], w[a]) for a in range(3)),
                    "the decomposition is not along the two edges of the wall", edges=(x, y))
            for q in (mx, my, lx, ly):
                for at in q.deep():
                    at = ATOMS[at]
                    if at.kind == "app" and at.name in ("min", "max"):
                        for z in at.args:
                            f.assume(ge(z - A(at) if at.name == "min" else A(at) - z))
            for p in idx:
                for a, (m, n) in enumerate(((mx, lx), (my, ly))):
                    self.ob(l, holds(f, ge(p[a] - m)) and holds(f, ge(m + n - p[a])),
                            "the searched area does not hold the whole wall (%s)" % "xy"[a], first=m, length=n, corner=p[a])
        # edges
        want = [tuple(sorted((i, (i + 1) % self.sides))) for i in range(self.sides)]
        for ip, s, sig, fd in self.ex:
            got = set()
            for k, (pq, l) in enumerate(s.x.get("edges", ())):
                who = [next((i for i, p in enumerate(P) if list(p) == list(v)), None) for v in pq]
                self.ob(l, None not in who, "an edge is not drawn between corners of the wall")
                if None in who:
                    continue
                used = any(isinstance(getattr(e, "src", None), Sym) and e.src.name == "edge%d" % k and e.full for e, _ in self.app) \
                    or (isinstance(sig[1], Sym) and sig[1].name == "edge%d" % k)
                if used:
                    got.add(tuple(sorted(who)))
            for q in want:
                self.ob(loc, q in got, "an edge of the wall is not entered in its cells", edge=q, entered=sorted(got))
        # inner part
        seen = 0
        for ip, loop, head, back in self.its:
            f = back.facts
            (x, y, o), (mx, my, lx, ly), l, nm = back.x["dec"]
            ns = cover.nest(loop)
            rs = [r for q in ns for r in cover.ranges(q)]
            rx = [r for r in rs if f.norm(r.hi - r.lo) == f.norm(lx) or same(r.hi - r.lo, lx)]
            ry = [r for r in rs if f.norm(r.hi - r.lo) == f.norm(ly) or same(r.hi - r.lo, ly)]
            pair = [(a, b) for a in rx for b in ry if a.loop is not b.loop and (a.loop is loop or b.loop is loop)]
            if not pair:
                continue
            seen += 1
            loc2 = ip.loc(loop.s)
            early = [q for q in ns if cover.early(q)]
            self.ob(loc2, not early, "the search for the inner part of a wall may stop early")
            a, b = pair[0]
            p, q = f.norm(a.hv - a.lo), f.norm(b.hv - b.lo)
            ins = None
            sym = next((v for r, v in back.store.items() if isinstance(v, Sym) and v.name == "decin"), None)
            d1 = next((v for r, v in back.store.items() if isinstance(v, Sym) and v.name == "dec1"), None)
            d2 = next((v for r, v in back.store.items() if isinstance(v, Sym) and v.name == "dec2"), None)
            if sym is None:
                tup = next((v for r, v in back.store.items() if isinstance(v, VList) and v.items and isinstance(v.items[0], Sym) and v.items[0].name == "dec1"), None)
                if tup is None:
                    continue
                d1, d2, sym = tup.items[:3]
            inside = ne(A(ip.cell(sym, (p, q), "", ("bool",))))
            c1, c2 = A(ip.cell(d1, (p, q), "", ("float",))), A(ip.cell(d2, (p, q), "", ("float",)))
            wr = diffs(loop, head, back)
            rows = {}
            for r, v, h, new in wr:
                if len(v.fields()) == 3:
                    for k, fl, val in new:
                        rows.setdefault(f.norm(k[0]), {})[fl] = f.norm(val)
            if f.prove(Not(inside)):
                self.ob(loc2, not rows, "cells outside a wall are entered in it", path=path_of(back))
                continue
            self.ob(loc2, f.prove(inside), "a cell is entered in a wall without testing that it is inside", path=path_of(back))
            if not f.prove(inside):
                continue
            corners = {}
            for k, rw in rows.items():
                if set(rw) != {"0", "1", "2"}:
                    continue
                di, dj = f.norm(rw["0"] - mx - p).cval(), f.norm(rw["1"] - my - q).cval()
                corners[(di, dj)] = rw["2"]
            for di in (0, 1):
                for dj in (0, 1):
                    self.ob(loc2, (di, dj) in corners, "a cell touching a corner that lies in the wall is left out", cell=(di, dj), entered=sorted(map(str, corners)))
                    kk = corners.get((di, dj))
                    if kk is None:
                        continue
                    at = kk.as_atom()
                    arg = at.args[0] if at is not None and at.kind == "app" and at.name == "ceil" else None
                    exp = o[2] + c1 * x[2] + c2 * y[2]
                    ok = arg is not None and same(arg, exp)
                    if not ok and at is None and len(kk.t) == 2:
                        # ceil(x) with an integer pulled out
                        for m, c in kk.t.items():
                            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].name == "ceil":
                                ok = same(ATOMS[m[0][0]].args[0] + kk - A(ATOMS[m[0][0]]), exp)
                    if not ok:
                        ok = holds(f, And(ge(kk - exp), gt(ONE - kk + exp)))
                    self.ob(loc2, ok, "a cell of the wall does not get the height of the wall there", height=kk, expected=exp)
            self.ob(loc2, len(rows) == 4, "cells of a wall overwrite each other", rows=len(rows))
            # the place to write moves on
            ks = sorted(rows, key=str)
            moved = False
            for c in loop.numeric():
                hv = loop.headval(c, None)
                if not isinstance(hv, Poly):
                    continue
                v = loop.getq(back, c)
                if isinstance(v, Poly) and f.norm(v - hv) == K(4) and {f.norm(k - hv).cval() for k in ks} == {0, 1, 2, 3}:
                    moved = True
            for r, v, h, new in wr:
                if len(v.fields()) == 3 and v.size and h.size and f.norm(v.size[0] - h.size[0]) == K(4):
                    moved = True
            self.ob(loc2, moved, "the cells of one corner are overwritten by the next", rows=ks)
        self.ob(loc, seen > 0, "no loop visits every cell corner of the searched area")


class Decomp(Obl):
    """coordinates of each cell corner in the basis of the wall, and the test
    that it is inside"""

    def __init__(self, tri):
        super().__init__()
        self.tri = tri
        self.its, self.ex = [], []

    def iteration(self, ip, loop, head, back):
        self.its.append((ip, loop, head, back))

    def exit(self, ip, st, sig, fd):
        self.ex.append((ip, st, sig, fd))

    def done(self):
        if not self.ex:
            return
        ip, st, sig, fd = self.ex[0]
        loc = ip.loc(fd)
        m = ip.model
        u = [A(atom("par", "a%d" % a)) for a in range(3)]
        w = [A(atom("par", "b%d" % a)) for a in range(3)]
        o = [A(atom("par", "c%d" % a)) for a in range(3)]
        ints = [A(atom("par", "arg_" + p["n"], isint=True)) for p in fd["params"] if p["t"].replace("const ", "") == "int"]
        mx, my, lx, ly = ints
        order = None
        ret = sig[1]
        items = ret.items if isinstance(ret, VList) else list(ret.f.values()) if isinstance(ret, Struct) else []
        names = [x.name if isinstance(x, Sym) else None for x in items]
        self.ob(loc, len(items) == 4 and len(set(names[:3])) == 3 and None not in names[:3], "the decomposition does not return its three tables", returned=names)
        if len(items) != 4:
            return
        for k in range(3):
            sz = items[k].size
            self.ob(loc, len(sz) == 2 and same(sz[0], lx) and same(sz[1], ly), "a table of the decomposition does not have the size of the area", size=sz)
        seen = 0
        for ip, loop, head, back in self.its:
            f = back.facts
            ns = cover.nest(loop)
            rs = [r for q in ns for r in cover.ranges(q)]
            rx = [r for r in rs if same(r.hi - r.lo, lx)]
            ry = [r for r in rs if same(r.hi - r.lo, ly)]
            pair = [(a, b) for a in rx for b in ry if a.loop is not b.loop and (a.loop is loop or b.loop is loop)]
            if not pair:
                continue
            seen += 1
            loc2 = ip.loc(loop.s)
            self.ob(loc2, not [q for q in ns if cover.early(q)], "the decomposition may stop early")
            a, b = pair[0]
            p, q = f.norm(a.hv - a.lo), f.norm(b.hv - b.lo)
            got = {}
            for r, v, h, new in diffs(loop, head, back):
                for k, fl, val in new:
                    kk = tuple(f.norm(x) for x in k)
                    self.ob(loc2, kk == (p, q), "the coordinates of a cell corner are stored for another one", key=kk)
                    if kk == (p, q):
                        got[v.name] = val
            c1, c2, ins = got.get(names[0]), got.get(names[1]), got.get(names[2])
            self.ob(loc2, c1 is not None and c2 is not None, "the coordinates of a cell corner are not stored")
            if c1 is None or c2 is None:
                continue
            c1, c2 = f.norm(c1), f.norm(c2)
            ha = K(Fr(1, 2))
            dx, dy = mx + p + ha - o[0], my + q + ha - o[1]
            self.ob(loc2, zero(c1 * u[0] + c2 * w[0] - dx) and zero(c1 * u[1] + c2 * w[1] - dy),
                    "the coordinates of a cell corner in the basis of the wall are wrong", along_first=c1, along_second=c2)
            isin = ins is not None and (ins is L.T or (isinstance(ins, Poly) and ins == ONE))
            t = TOLP
            if self.tri:
                cond = And(gt(c1 - t), gt(c2 - t), gt(ONE - t - c1 - c2))
            else:
                cond = And(gt(c1 - t), gt(ONE - t - c1), gt(c2 - t), gt(ONE - t - c2))
            self.ob(loc2, holds(f, cond if isin else Not(cond)),
                    "a cell corner %s the wall is taken for one %s it" % (("outside", "inside") if isin else ("inside", "outside")), path=path_of(back))
            n = []
            for c in loop.numeric():
                hv = loop.headval(c, None)
                v = loop.getq(back, c)
                if isinstance(hv, Poly) and isinstance(v, Poly):
                    n.append(f.norm(v - hv).cval())
            if isin:
                self.ob(loc2, 4 in n, "the number of cells of the wall is not counted up by four")
            else:
                self.ob(loc2, 4 not in n, "the number of cells of the wall counts cells outside it")
        self.ob(loc, seen > 0, "no loop visits every cell corner of the searched area")


class DecModel(Model):
    def vecarg(self, n, p, fd):
        return VList([A(atom("par", "%s%d" % ("abcd"[n], a))) for a in range(3)], ("float",))

    def bind(self, fd, st):
        vs = super().bind(fd, st)
        return vs


class LineModel(Model):
    def vecarg(self, n, p, fd):
        return VList([A(atom("par", "%s%d" % ("ab"[n], a))) for a in range(3)], ("float",))


def rounded(p, name):
    """x when p is round(x) / ceil(x) (integers pulled out are put back)"""
    at = p.as_atom()
    if at is not None and at.kind == "app" and at.name == name:
        return at.args[0]
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and c == 1 and ATOMS[m[0][0]].kind == "app" and ATOMS[m[0][0]].name == name:
            x = ATOMS[m[0][0]]
            r = p - A(x)
            if all(len(k) == 0 or all(ATOMS[y].isint for y, _ in k) for k in r.t):
                return x.args[0] + r
    return None


ROUND = ("round", "round", "ceil")


class Line(Obl):
    """the cells along an edge: from the cell of its first end, always into the
    neighbour whose border is met next, until no border is left before the other end"""

    def __init__(self):
        super().__init__()
        self.loops = {}
        self.its = []

    def iteration(self, ip, loop, head, back):
        self.loops[id(loop)] = (ip, loop)

    def exit(self, ip, st, sig, fd):
        self.loc = ip.loc(fd)

    def row(self, v, f):
        if isinstance(v, VList):
            return [f.norm(x) for x in v.items]
        return None

    def newrows(self, old, new, f):
        """rows added to the list of cells"""
        if isinstance(new, Sym):
            d = {}
            for k, fl, val in new.log:
                if isinstance(old, Sym) and (k, fl, val) in old.log:
                    continue
                d.setdefault(k, {})[fl] = f.norm(val)
            return [[r[str(n)] for n in range(3)] for r in d.values() if len(r) == 3]
        return None

    def done(self):
        if not self.loops:
            self.fail(getattr(self, "loc", ("body_pos.cpp", 0)), "no loop follows the edge")
            return
        for ip, loop in self.loops.values():
            self.follow(ip, loop)

    def follow(self, ip, loop):
        g = ip.model.grid()
        a, b = [[A(atom("par", "%s%d" % (c, k))) for k in range(3)] for c in "ab"]
        off = [g.f["half_length_x_"], g.f["half_length_y_"], g.f["half_length_z_"] - ONE]
        inv = [INVXY, INVXY, INVZ]
        s = [a[k] * inv[k] + off[k] for k in range(3)]
        d0 = [(b[k] - a[k]) * inv[k] for k in range(3)]
        ent = loop.entry
        loc = ip.loc(loop.s)
        fe = ent.facts
        backs = [(head, x) for _, head, bs, _ in loop.last for x in bs]
        exits = [(head, x, why) for _, head, _, ex in loop.last for x, sig, why in ex if not x.facts.dead]
        # the first cell
        first = None
        for r, v in ent.store.items():
            if isinstance(v, VList) and len(v.items) == 1 and isinstance(v.items[0], VList) and len(v.items[0].items) == 3:
                first = [fe.norm(x) for x in v.items[0].items]
            elif isinstance(v, Sym) and v.tag == "gen" and len(v.fields()) == 3 and v.size == (ONE,):
                rr = self.newrows(None, v, fe)
                first = rr[0] if rr else first
        self.ob(loc, first is not None, "the list does not start with one cell")
        if first is not None:
            for k in range(3):
                x = rounded(first[k], ROUND[k])
                self.ob(loc, x is not None and same(x, s[k]), "the first cell is not the one of the first end (%s)" % "xyz"[k], value=first[k])
        num = [c for c in loop.numeric() if isinstance(loop.headval(c, None), Poly)]
        coord, tvar, delta, step = {}, {}, {}, {}
        for head, x in backs:
            f = x.facts
            new = None
            for r, v in x.store.items():
                h = head.store.get(r)
                if isinstance(v, Sym) and v.tag == "gen" and isinstance(h, Sym) and len(v.fields()) == 3 and len(v.log) != len(h.log):
                    new = self.newrows(h, v, f)
            self.ob(loc, new is not None and len(new) == 1, "a move along the edge does not enter exactly one cell")
            if not new:
                continue
            moved = []
            for k in range(3):
                arg = rounded(new[-1][k], ROUND[k])
                hit = [c for c in num if arg is not None and same(f.norm(loop.getq(x, c)), arg) and (k not in coord or coord[k] == c)]
                self.ob(loc, bool(hit), "a cell along the edge is not the cell of the running point (%s)" % "xyz"[k], value=new[-1][k])
                if not hit:
                    return
                coord[k] = hit[0]
                dl = f.norm(loop.getq(x, hit[0]) - loop.headval(hit[0], None)).cval()
                if dl != 0:
                    moved.append((k, dl))
            self.ob(loc, len(moved) == 1 and moved[0][1] in (1, -1), "a move along the edge does not go to a neighbouring cell", moved=moved)
            if len(moved) != 1:
                continue
            k, dl = moved[0]
            if k in step and step[k] != dl:
                self.ob(loc, False, "the direction of the moves along one axis changes")
            step[k] = dl
            if not self.ob(loc, holds(f, ge(d0[k].scale(dl))), "a move along the edge goes away from its other end (%s)" % "xyz"[k], step=dl):
                continue
            adv = [c for c in num if c not in coord.values() and f.norm(loop.getq(x, c) - loop.headval(c, None)) != ZERO]
            self.ob(loc, len(adv) == 1, "the distance to the next border of one axis is not kept up")
            if len(adv) != 1:
                continue
            if k in tvar and tvar[k] != adv[0]:
                self.ob(loc, False, "the distance of another axis is advanced")
                continue
            tvar[k] = adv[0]
            delta[k] = f.norm(loop.getq(x, adv[0]) - loop.headval(adv[0], None))
        if len(tvar) == 3:
            self.ob(loc, len(set(tvar.values())) == 3, "two axes share one distance")
        hd = {k: loop.headval(c, None) for k, c in tvar.items()}
        D = [self.dd(fe, d0, k) for k in range(3)]
        sq = D[0] * D[0] + D[1] * D[1] + D[2] * D[2]
        for k in sorted(tvar):
            self.ob(loc, same(delta[k] * delta[k] * D[k] * D[k], sq), "the distance between borders of one axis is wrong (%s)" % "xyz"[k], value=delta[k])
            e0 = fe.norm(loop.getq(ent, tvar[k]))
            r = mk(ROUND[k] if k < 2 else ("ceil" if step[k] == 1 else "floor"), s[k])
            dist = (r + (K(Fr(1, 2)) if k < 2 else ZERO) - s[k]) if step[k] == 1 else (s[k] - r + (K(Fr(1, 2)) if k < 2 else ZERO))
            ok = same(e0, fe.norm(dist) * delta[k])
            if not ok and fe.prove(eq(dist)):
                ok = same(e0, delta[k])
            self.ob(loc, ok, "the distance to the first border of one axis is wrong (%s)" % "xyz"[k], value=e0, expected=dist)
        for head, x in backs:
            f = x.facts
            for k in tvar:
                if f.norm(loop.getq(x, coord[k]) - loop.headval(coord[k], None)) == ZERO:
                    continue
                for q in tvar:
                    if q != k:
                        self.ob(loc, holds(f, ge(hd[q] - hd[k])), "a move may skip a border that comes first (%s before %s)" % ("xyz"[k], "xyz"[q]))
        for head, x, why in exits:
            f = x.facts
            self.ob(loc, why == "cond", "the edge may be left early")
            nm = [A(at) for at in [ATOMS[z] for b in f.ineq for z in b.deep()] if at.kind == "app" and at.name == "sqrt" and same(at.args[0], sq)]
            for k in tvar:
                t = f.norm(hd[k])
                self.ob(loc, any(holds(f, ge(t - n)) for n in nm), "the edge may end before its last cell (%s)" % "xyz"[k], path=path_of(x))

    def dd(self, f, d0, k):
        """extent of the edge along an axis; a flat edge counts as leaning by almost nothing"""
        v = f.norm(d0[k])
        if v == ZERO or f.prove(eq(d0[k])):
            return K(Fr(1, 10 ** 10))
        return v


from .interp import mk
