"""Where the body is (C17, and the areas of C11): positioning of the two kinds
of body, with the rasterisation of one wall replaced by a summary."""
from . import logic as L, run
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, TOL, CELLXY, atom, fresh
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS, TOLP, analyse, PURE
from .values import *
from .soil import Obl, holds, peek, path_of
from fractions import Fraction as Fr

DBG = 0
CORNERS = ("j_r", "j_l", "b_r", "b_l", "t_r", "t_l")
AX = ("x", "y")


def corner(k):
    return VList([A(atom("par", "corner_%s%d" % (CORNERS[k], a))) for a in range(3)], ("float",))


def drop(p, aid):
    """the part of a polynomial free of an atom"""
    return Poly({m: c for m, c in p.t.items() if all(a != aid for a, _ in m)})


def linear(p):
    """{atom: coefficient} of a linear polynomial, None otherwise"""
    out = {}
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        out[m[0][0]] = c
    return out


class BodyModel(Model):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.notes = []

    def note(self, ip, st, e, ok, msg, **d):
        if not self.cheap:
            self.report(self.notes.append, (ip.loc(e), bool(ok), msg, {k: str(v)[:600] for k, v in d.items()}))

    def value(self, ip, st, v, e):
        if isinstance(v, RefV):
            r = ip.load(st, v.lv, e)
            return r[0][1]
        return v

    def sees(self, ip, st, fd, vs, e, skip=0):
        """pose, grid and body are handed on unchanged"""
        for p, v in list(zip(fd["params"], vs))[skip:]:
            v = self.value(ip, st, v, e)
            if isinstance(v, Struct) and v.name == NS + "Grid":
                self.note(ip, st, e, v == self.grid(), "a wall is rasterised on another grid")

    def summary(self, ip, st, fd, vs, e, this):
        nm = fd["name"][len(NS):] if fd["name"].startswith(NS) else fd["name"]
        if nm == "CalcBodyCornerPos":
            vv = [self.value(ip, st, v, e) for v in vs]
            vec = [v for v in vv if isinstance(v, VList)]
            ok = len(vec) == 2 and vec[0].items == self.vec("pos", 3).items and vec[1].items == self.vec("ori", 4).items
            self.note(ip, st, e, ok, "the corners of the body are computed for another pose than the requested one")
            st = st.copy()
            st.x["corners"] = True
            return [(st, self.tuple(fd, [corner(k) for k in range(6)]))]
        if nm == "CalcNormal":
            vv = [self.value(ip, st, v, e) for v in vs]
            key = tuple(st.facts.norm(x) for v in vv for x in v.items)
            return [(st, VList([A(atom("app", "normal%d" % a, key)) for a in range(3)], ("float",)))]
        if nm in ("CalcRectanglePos", "CalcTrianglePos"):
            n = 4 if nm == "CalcRectanglePos" else 3
            vv = [self.value(ip, st, v, e) for v in vs]
            self.sees(ip, st, fd, vs, e)
            st = st.copy()
            pts = tuple(tuple(st.facts.norm(x) for x in v.items) for v in vv[:n])
            st.x["surf"] = st.x.get("surf", ()) + ((n, pts, ip.loc(e)),)
            k = len(st.x["surf"]) - 1
            nrow = self.par("ncell%d" % k, isint=True, pos=True)
            t = {str(j): ("int",) for j in range(3)}
            return [(st, Sym("cells%d" % k, "gen", 1, ("fields", ("0", "1", "2"), ("list",), t), {f: "0" for f in t}, (), (nrow,)))]
        if nm == "UpdateBody":
            if DBG: print([x for x in st.store[("sim",)].f["body_"].log], st.store[("sim",)].f["body_"].ep)
            v = self.value(ip, st, vs[0], e)
            st = st.copy()
            k = int(v.name[5:]) if isinstance(v, Sym) and v.name.startswith("cells") and v.name[5:].isdigit() else None
            self.note(ip, st, e, k is not None, "the body is updated from another list than the cells of one wall", given=v)
            if k is not None:
                srt = not v.log and any(ev.kind == "sort" and ev.full and not ev.custom and self.same(ip, st, ev, v) for ev in st.seg)
                self.note(ip, st, e, srt, "the cells of a wall are not sorted when the body is updated")
                st.x["drawn"] = st.x.get("drawn", ()) + (k,)
            self.cleared(ip, st, e)
            sim = st.store[("sim",)]
            b = sim.f["body_"]
            st.store[("sim",)] = sim.set("body_", b.rep(ep={"": "U%d" % len(st.x.get("drawn", ()))}, log=(), fill=None, reads={}))
            return [(st, None)]
        return super().summary(ip, st, fd, vs, e, this)

    def same(self, ip, st, ev, v):
        try:
            r = ip.load(st, ev.lv, {"l": 0})
            return r[0][1] is v or (isinstance(r[0][1], Sym) and r[0][1].name == v.name and r[0][1].ep == v.ep)
        except Exception:
            return False

    def tuple(self, fd, items):
        return VList(items)

    def cleared(self, ip, st, e):
        """before the first wall is drawn every cell of the previous area is empty"""
        if st.x.get("drawn", ()) and len(st.x["drawn"]) > 1:
            return
        s = st.copy()
        i, j = A(atom("par", "anycol_i", isint=True)), A(atom("par", "anycol_j", isint=True))
        b0 = self.simout().f["body_area_"]
        for v, a in ((i, 0), (j, 1)):
            s.facts.assume(ge(v - b0.items[a].items[0]))
            s.facts.assume(ge(b0.items[a].items[1] - v - ONE))
        for n in range(4):
            ok = True
            for s2, x in peek(ip, s, "body_", (K(n), i, j)):
                if not s2.facts.dead and s2.facts.norm(x) != ZERO and not holds(s2.facts, eq(x)):
                    ok = False
            self.note(ip, st, e, ok, "a cell of the previous body area may keep its old content (layer %d)" % n)


INVXY = Poly({((CELLXY.id, -1),): 1})


def bounds(f, p):
    """the extrema in p, divided by the cell size, bound their arguments divided by the cell size"""
    for x in p.deep():
        at = ATOMS[x]
        if at.kind == "app" and at.name in ("min", "max"):
            for q in at.args:
                d = q - A(at) if at.name == "min" else A(at) - q
                f.assume(ge(d * INVXY))


EXPECT = {
    "Bucket": [("base", 4, ("b_r", "b_l", "t_l", "t_r")), ("back", 4, ("b_r", "b_l", "j_l", "j_r")),
               ("right side", 3, ("j_r", "b_r", "t_r")), ("left side", 3, ("j_l", "b_l", "t_l"))],
    "Blade": [("front of the upper part", 4, ("b_r", "b_l", "j_l", "j_r")), ("front of the lower part", 4, ("t_r", "t_l", "j_l", "j_r")),
              ("back of the upper part", 4, ("b_r'", "b_l'", "j_l'", "j_r'")), ("back of the lower part", 4, ("t_r'", "t_l'", "j_l'", "j_r'"))],
}


class Pose(Obl):
    """every wall is drawn, inside the area that is announced"""

    def __init__(self, what):
        super().__init__()
        self.what = what
        self.seen = False

    def vertex(self, p):
        """name of the corner of the body a vertex is (mod the tolerance)"""
        tol = TOL.id
        names = []
        off = []
        for a in range(3):
            q = drop(p[a], tol)
            lin = None
            for k in range(6):
                at = corner(k).items[a]
                r = q - at
                if r == ZERO:
                    lin = (k, ZERO)
                    break
                if all(not ATOMS[x].name.startswith("corner_") or ATOMS[x].kind != "par" for m in r.t for x, _ in m):
                    lin = (k, r)
                    break
            if lin is None:
                return None
            names.append(lin[0])
            off.append(lin[1])
            # the increment is a small multiple of the tolerance times differences of corners
            inc = p[a] - q
            tot = {}
            for m, c in inc.t.items():
                d = dict(m)
                if d[tol] < 1 or abs(c) > 8 ** d[tol]:
                    return None
                if any(e < 0 or (x not in (tol, CELLXY.id) and not ATOMS[x].name.startswith(("corner_", "normal"))) for x, e in m):
                    return None
                # to the first order the vertex goes towards the other corners
                if d[tol] == 1:
                    at = [ATOMS[x] for x in d if ATOMS[x].name.startswith("corner_")]
                    if len(at) == 1 and (c > 0) == (at[0] is ATOMS[list(corner(lin[0]).items[a].t)[0][0][0]]):
                        return None
                cs = [ATOMS[x] for x in d if ATOMS[x].name.startswith("corner_")]
                if len(cs) == 1 and not cs[0].name.endswith(str(a)):
                    return None
                k = tuple(sorted((x, e) for x, e in d.items() if not ATOMS[x].name.startswith("corner_")))
                if len(cs) == 1:
                    tot[k] = tot.get(k, 0) + c
            if any(tot.values()):
                return None
        if len(set(names)) != 1:
            return None
        if all(o == ZERO for o in off):
            return CORNERS[names[0]]
        # moved by one cell along the normal of the blade
        key = None
        for a in range(3):
            lin = off[a].t
            if len(lin) != 1:
                return None
            (m, c), = lin.items()
            d = dict(m)
            if c != 1 or d.pop(CELLXY.id, None) != 1 or len(d) != 1:
                return None
            (x, e), = d.items()
            at = ATOMS[x]
            if e != 1 or at.name != "normal%d" % a:
                return None
            if key is not None and at.args != key:
                return None
            key = at.args
        return CORNERS[names[0]] + "'"

    def exit(self, ip, st, sig, fd):
        loc = ip.loc(fd)
        kind = st.store[("body",)].name.split("::")[-1]
        self.seen = True
        f = st.facts
        surf = st.x.get("surf", ())
        sim = st.store[("sim",)]
        if "C17" in self.what:
            got = []
            for n, pts, l in surf:
                vs = [self.vertex(p) for p in pts]
                got.append((n, vs, l))
                self.ob(l, None not in vs, "a wall of the body is not drawn between corners of the body", vertices=vs)
            drawn = st.x.get("drawn", ())
            for nm, n, want in EXPECT.get(kind, ()):
                hit = [k for k, (m, vs, l) in enumerate(got) if m == n and self.match(vs, want)]
                self.ob(loc, bool(hit), "the %s wall of the %s is not rasterised" % (nm, kind.lower()), walls=[g[1] for g in got])
                self.ob(loc, not hit or any(k in drawn for k in hit), "the %s wall of the %s is not entered in the body" % (nm, kind.lower()))
            self.ob(loc, sorted(drawn) == sorted(set(drawn)), "a wall is entered twice")
        if "C11" in self.what or "C17" in self.what:
            g = ip.model.grid()
            sp = ip.model.simparam()
            ar = sim.f["body_area_"]
            for a in (0, 1):
                lo, hi = ar.items[a].items
                half = g.f["half_length_%s_" % AX[a]]
                buf = sp.f["cell_buffer_"]
                f = st.facts.copy()
                if "C17" in self.what:
                    bounds(f, lo)
                    bounds(f, hi)
                if "C11" in self.what:
                    self.ob(loc, holds(f, ge(lo - ONE)), "the body area may start before the first usable cell (%s)" % AX[a], lo=lo)
                    self.ob(loc, holds(f, ge(half.scale(2) - hi)), "the body area may reach past the grid (%s)" % AX[a], hi=hi)
                if "C17" in self.what:
                    for n, pts, l in surf:
                        for p in pts:
                            x = p[a] * INVXY
                            c = x + half
                            ok = holds(f, Or(eq(lo - ONE), ge(c - buf + K(Fr(1, 2)) - lo)))
                            self.ob(loc, ok, "the body area may start after a wall of the body (%s)" % AX[a], lo=lo, vertex=p[a])
                            ok = holds(f, Or(eq(half.scale(2) - hi), ge(hi - (c + buf - K(Fr(1, 2))))))
                            self.ob(loc, ok, "the body area may end before a wall of the body (%s)" % AX[a], hi=hi, vertex=p[a])

    def match(self, vs, want):
        if len(vs) != len(want):
            return False
        n = len(vs)
        for d in (vs, vs[::-1]):
            for k in range(n):
                if tuple(d[k:] + d[:k]) == tuple(want):
                    return True
        return False

    def take(self, model):
        pats = {"C17": ("",), "C11": ()}
        ps = [x for w in self.what for x in pats[w]]
        for loc, ok, msg, d in model.notes:
            if ps:
                self.ob(loc, ok, msg, **d)


def pose_jobs(*what):
    out = []
    n = len([f for f in run.program().byname.get(NS + "CalcBodyPos", []) if f.get("body") is not None])
    for k in range(max(n, 1)):
        def go(k=k):
            r = run.Result()
            x = Pose(what)
            m = BodyModel(listeners=[x])
            ip, fd, outs = analyse(run.program(), NS + "CalcBodyPos", m, nth=k)
            m.flush()
            x.take(m)
            if not x.seen:
                x.fail((fd["file"], fd["line"]), "the positioning of the body never returns")
            r.viol = [(f, l, msg, d) for (f, l, msg), d in x.viol.items()]
            r.obligations, r.sites, r.assumed = x.n, x.sites, m.assumed
            r.info = {"paths": ip.stats["paths"], "functions": sorted(run.short(c) for c in ip.stats["calls"])}
            return r
        out.append(run.Job("CalcBodyPos#%d" % k, go))
    return out
