"""Configuration objects: what constructors accept (C13) and what they build (C22)."""
import math
from fractions import Fraction as Fr
from . import cover, logic as L
from .poly import Poly, K, A, C, ZERO, ONE, atom, fresh, subst, ppow, ATOMS
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS
from .values import *
from .ir import Broken
from .soil import Obl, holds, path_of

HALFPI = Fr(math.pi) / 2
EPS = Fr(1, 10 ** 6)


class CModel(Model):
    def vecarg(self, n, p, fd):
        return Sym("arg_" + p["n"], "vect", 1, ("float",), {"": "0"}, (), (self.par("size_" + p["n"], isint=True, nonneg=True),))

    def lasttol(self, fd, p):
        return False

    def on_write(self, ip, s, l, i, key, field, old, new, e):
        super().on_write(ip, s, l, i, key, field, old, new, e)
        if ip.getat(s, l, i).tag == "gen":
            ip.emit(s, "gw", e, lv=(l.root, l.path[:i]), key=key, old=old, new=new)


def arg(fd, i):
    """the i-th parameter of a constructor as the analysis sees it"""
    p = fd["params"][i]
    return p["n"]


def num(fd, i, isint=False):
    return A(atom("par", "arg_" + arg(fd, i), isint=isint))


def pos(*ps):
    return [(gt(p), "%s > 0" % p) for p in ps]


def grid_req(m, fd):
    gx, gy, gz, cxy, cz = (num(fd, i) for i in range(5))
    return pos(gx, gy, gz, cxy, cz) + [(ge(cxy - cz), "cell_size_z <= cell_size_xy"), (ge(gx - cxy), "cell_size_xy <= grid_size_x"),
                                       (ge(gy - cxy), "cell_size_xy <= grid_size_y"), (ge(gz - cz), "cell_size_z <= grid_size_z")]


def vecs(ip, st, fd):
    return [[A(ip.cell(Sym("arg_" + arg(fd, i), "vect", 1, ("float",), {"": "0"}, (), (K(3),)), (K(k),), "", ("float",))) for k in range(3)] for i in range(4)]


def body_req(ip, st, fd):
    out = []
    for i in range(4):
        n = A(atom("par", "size_" + arg(fd, i), isint=True))
        out.append((eq(n - K(3)), "%s has three components" % arg(fd, i)))
    v = vecs(ip, st, fd)
    for a, b in ((1, 2), (1, 3), (2, 3)):
        out.append((Or(*[ne(v[a][k] - v[b][k]) for k in range(3)]), "%s differs from %s" % (arg(fd, a), arg(fd, b))))
    return out + pos(num(fd, 4))


def param_req(m, fd):
    r, n, b = num(fd, 0), num(fd, 1, True), num(fd, 2, True)
    return [(ge(r), "repose angle >= 0"), (ge(K(HALFPI) - r), "repose angle <= pi/2"), (ge(n), "max_iterations >= 0"), (ge(b - K(2)), "cell_buffer >= 2")]


class Accept(Obl):
    """returns only when every requirement holds, throws std::invalid_argument only when one does not"""

    def __init__(self, req):
        super().__init__()
        self.req = req
        self.rets = 0

    def exit(self, ip, st, sig, fd):
        nm = fd["name"].replace(NS, "").split("::")[0]
        loc = ip.loc(fd)
        rq = self.req(ip, st, fd) if self.req is body_req else self.req(None, fd)
        f = st.facts
        if sig[0] == "throw":
            t, tl = st.x["throw"]
            self.ob(tl, t is not None and t.replace("class ", "").endswith("std::invalid_argument"), "%s: an error other than std::invalid_argument is thrown" % nm, type=t)
            self.ob(tl, holds(f, Or(*[self.slack(Not(b)) for b, _ in rq])), "%s: a valid configuration is rejected" % nm, path=path_of(st))
            return
        self.rets += 1
        for b, what in rq:
            self.ob(loc, holds(f, self.tol(b)), "%s: a configuration that violates '%s' is accepted" % (nm, what), path=path_of(st))

    # the constant pi/2 may be written with any usual precision
    def tol(self, b):
        return self.near(b, EPS)

    def slack(self, b):
        return self.near(b, EPS)

    def near(self, b, e):
        if getattr(b, "op", None) in ("ge", "gt") and len(b.a.t) == 2 and () in b.a.t:
            k = [abs(Fr(c)) for m, c in b.a.t.items() if m][0]
            if abs(abs(Fr(b.a.t[()])) / k - HALFPI) < Fr(1, 1000):
                return ge(b.a + K(k * e))
        return b

    def done(self):
        if not self.rets:
            self.fail(("?", 0), "no configuration is accepted")


class BodyPoints(Obl):
    """the body keeps its points relative to its origin, its width, and a zero pose"""

    def exit(self, ip, st, sig, fd):
        if sig[0] == "throw":
            return
        th = st.store[("this",)]
        loc = ip.loc(fd)
        o, j, b, t = vecs(ip, st, fd)
        for f, want in (("j_pos_init_", j), ("b_pos_init_", b), ("t_pos_init_", t)):
            got = th.f[f]
            ok = isinstance(got, VList) and len(got.items) == 3 and all(isinstance(g, Poly) and st.facts.norm(g - (w - x)) == ZERO for g, w, x in zip(got.items, want, o))
            self.ob(loc, ok, "%s is not the given point relative to the origin" % f, value=got)
        self.ob(loc, isinstance(th.f["width_"], Poly) and st.facts.norm(th.f["width_"] - num(fd, 4)) == ZERO, "width_ is not the given width", value=th.f["width_"])
        for f, n in (("pos_", 3), ("ori_", 4)):
            got = th.f[f]
            self.ob(loc, isinstance(got, VList) and len(got.items) == n and all(isinstance(g, Poly) for g in got.items), "%s does not have %d initialised components" % (f, n), value=got)


class ParamValues(Obl):
    def exit(self, ip, st, sig, fd):
        if sig[0] == "throw":
            return
        th = st.store[("this",)]
        for f, v in (("repose_angle_", num(fd, 0)), ("max_iterations_", num(fd, 1, True)), ("cell_buffer_", num(fd, 2, True))):
            got = th.f[f]
            self.ob(ip.loc(fd), isinstance(got, Poly) and st.facts.norm(got - v) == ZERO, "%s is not the given value" % f, value=got)


# ---------------------------------------------------------------- C22
class Fill:
    """what a loop writes into one vector: element i gets g(i) for lo <= i < hi"""
    def __init__(self, loop, rng):
        self.loop, self.rng = loop, rng
        self.writes = []
        self.bad = None


def closed(ip, loop, rng, back):
    """values of the other counters of a loop in terms of its index"""
    sub = {}
    at = rng.hv.as_atom()
    heads = set()
    for c in loop.numeric():
        try:
            heads |= loop.headval(c, None).deep()
        except Exception:
            pass
    for c in loop.numeric():
        if c[0] not in ("s", "t"):
            continue
        hv = loop.headval(c, None)
        a = hv.as_atom() if isinstance(hv, Poly) else None
        if a is None or a is at or a.id == at.id:
            continue
        try:
            ds = {repr(b.facts.norm(loop.getq(b, c) - hv)): b.facts.norm(loop.getq(b, c) - hv) for _, _, bs, _ in loop.last for b in bs}
            e0 = loop.entry.facts.norm(loop.getq(loop.entry, c))
        except Exception:
            continue
        if len(ds) != 1 or not isinstance(e0, Poly):
            continue
        d = list(ds.values())[0]
        if rng.step == 1 and not d.deep() & heads:
            sub[a.id] = e0 + (rng.hv - rng.lo) * d
    return sub


class Axes(Obl):
    """the coordinate tables: evenly spaced by the cell size of their own axis"""

    def __init__(self):
        super().__init__()
        self.fills = {}
        self.locs = {}

    def iteration(self, ip, loop, head, back):
        rs = cover.ranges(loop)
        byvec = {}
        pre = head.seg
        for e in back.seg[len(pre):] if back.seg[:len(pre)] == pre else back.seg:
            if e.kind == "gw":
                byvec.setdefault(e.lv, []).append((e.key, e.new))
            elif e.kind == "vpush":
                l = e.lv
                byvec.setdefault((l.root, l.path), []).append((None, e.val))
        for lv, ws in byvec.items():
            try:
                hsym = walk(head, lv)
                esym = walk(loop.entry, lv)
            except Exception:
                continue
            rec = self.fills.setdefault("L%d" % loop.epid, [])
            rec.append((ip, loop, head, back, lv, ws, rs, hsym, esym))
            self.locs["L%d" % loop.epid] = ip.loc(loop.s)

    def exit(self, ip, st, sig, fd):
        if sig[0] == "throw":
            return
        th = st.store[("this",)]
        f = st.facts
        loc = ip.loc(fd)
        gs = [num(fd, i) for i in range(3)]
        cxy, cz = num(fd, 3), num(fd, 4)
        cell = {"x": cxy, "y": cxy, "z": cz}

        def same(name, want, msg):
            got = th.f[name]
            return self.ob(loc, isinstance(got, Poly) and f.norm(got - want) == ZERO, msg, value=got)
        same("cell_size_xy_", cxy, "cell_size_xy_ is not the given horizontal cell size")
        same("cell_size_z_", cz, "cell_size_z_ is not the given cell height")
        same("cell_area_", cxy * cxy, "cell_area_ is not the area of a cell")
        same("cell_volume_", cxy * cxy * cz, "cell_volume_ is not the volume of a cell")
        for i, ax in enumerate("xyz"):
            n = th.f["half_length_%s_" % ax]
            ok = isinstance(n, Poly)
            if ok:
                d = f.norm(n - gs[i] * inverse(cell[ax]))
                ok = holds(f, ge(K(Fr(1, 2)) - d)) and holds(f, ge(K(Fr(1, 2)) + d))
                a = f.norm(n).as_atom()
                if not ok and a is not None and ATOMS[a.id].name in ("trunc", "floor") and len(ATOMS[a.id].args) == 1:
                    # extents are positive: cutting off after adding one half rounds
                    ok = f.norm(ATOMS[a.id].args[0] - gs[i] * inverse(cell[ax]) - K(Fr(1, 2))) == ZERO
            if not self.ob(loc, ok, "half_length_%s_ is not the half extent in cells of axis %s" % (ax, ax), value=n):
                continue
            v = th.f["vect_%s_" % ax]
            size = K(len(v.items)) if isinstance(v, VList) else v.size[0]
            if not self.ob(loc, f.norm(size - n.scale(2) - ONE) == ZERO, "vect_%s_ does not have 2n+1 entries" % ax, size=size):
                continue
            firsts = [-gs[i], -n * cell[ax]] if ax != "z" else [-gs[i] + cz, -n * cz + cz]
            rec = self.fills.get(v.ep.get("")) if isinstance(v, Sym) else None
            if v.__class__ is Sym and v.log:
                rec = None
            if not self.ob(loc, rec is not None, "vect_%s_ is not filled by a loop over its entries" % ax, value=v):
                continue
            where = self.locs[v.ep[""]]
            self.ob(where, any(all(self.fits(r, fst, cell[ax], f, size) for r in rec) for fst in firsts),
                    "vect_%s_ does not start at its lower end and advance by one cell of axis %s" % (ax, ax), writes=[r[5] for r in rec])

    def fits(self, r, first, step, f, size):
        ip, loop, head, back, lv, ws, rs, hsym, esym = r
        g = back.facts
        for rng in rs:
            if not isinstance(rng.lo, Poly) or rng.lo.cval() is None:
                continue
            lo = int(rng.lo.cval())
            sub = closed(ip, loop, rng, back)

            def want(i):
                return first + i * step
            if len(ws) != 1:
                return False
            key, val = ws[0]
            if not isinstance(val, Poly):
                return False
            if key is None:
                if not isinstance(hsym, Sym):
                    continue
                idx = g.norm(subst(hsym.size[0], sub))
                n0 = esym.size[0] if isinstance(esym, Sym) else K(len(esym.items))
                off = f.norm(n0 - rng.lo)
                if g.norm(idx - rng.hv - off) != ZERO or off.cval() is None:
                    continue
                idx, start = g.norm(rng.hv + off), lo + int(off.cval())
                end = f.norm(rng.hi + off)
            else:
                idx = g.norm(key[0])
                if g.norm(idx - rng.hv) != ZERO:
                    off = g.norm(idx - rng.hv).cval()
                    if off is None:
                        continue
                    start, end = lo + int(off), f.norm(rng.hi + K(off))
                else:
                    start, end = lo, f.norm(rng.hi)
            if f.norm(end - size) != ZERO and back.facts.norm(end - size) != ZERO:
                continue
            # the entries before the first one the loop writes
            base = []
            if start > 2:
                continue
            for k in range(start):
                x = [v for _, v in ip.load(loop.entry.copy(), LV(*lv).i(K(k)), {"l": 0})]
                base.append(all(isinstance(v, Poly) and f.norm(v - want(K(k))) == ZERO for v in x))
            if not all(base):
                continue
            v = g.norm(subst(val, sub))
            if f.norm(g.norm(v - want(idx))) == ZERO:
                return True
            if start >= 1 and rng.step == 1:
                prev = [y for _, y in ip.load(head.copy(), LV(*lv).i(idx - ONE), {"l": 0})]
                if len(prev) == 1 and g.norm(v - prev[0] - step) == ZERO:
                    return True
        return False


def inverse(p):
    return ppow(p, -1)


def walk(st, lv):
    v = st.store[lv[0]]
    for k, p in lv[1]:
        v = v.f[p] if isinstance(v, Struct) else v.items[p]
    return v


class Storage(Obl):
    """the simulation state has the dimensions of the grid, cleared, with areas spanning the interior"""

    def exit(self, ip, st, sig, fd):
        th = st.store[("this",)]
        f, loc = st.facts, ip.loc(fd)
        m = ip.model
        n = [m.hl(a) for a in "xy"]
        dims = [x.scale(2) + ONE for x in n]

        def plane(v, what):
            if isinstance(v, Sym) and v.depth == 2:
                self.ob(loc, all(f.norm(a - b) == ZERO for a, b in zip(v.size, dims)), "%s does not have the dimensions of the grid" % what, size=v.size)
                return
            self.ob(loc, False, "%s does not have the dimensions of the grid" % what, value=v)
        plane(th.f["terrain_"], "terrain_")
        for fl in ("body_", "body_soil_"):
            v = th.f[fl]
            if isinstance(v, VList):
                self.ob(loc, len(v.items) == 4, "%s does not have four layers" % fl)
                for x in v.items:
                    plane(x, fl)
            else:
                self.ob(loc, isinstance(v, Sym) and all(f.norm(a - b) == ZERO for a, b in zip(v.size, [K(4)] + dims)), "%s does not have the dimensions of the grid" % fl, value=v)
        i, j = A(fresh("i", isint=True)), A(fresh("j", isint=True))
        ths = LV(("this",))
        for fl, keys in (("terrain_", [(i, j)]), ("body_", [(K(k), i, j) for k in range(4)]), ("body_soil_", [(K(k), i, j) for k in range(4)])):
            for key in keys:
                l = ths.f(fl)
                for k in key:
                    l = l.i(k)
                try:
                    vals = [v for _, v in ip.load(st.copy(), l, {"l": 0})]
                except Broken:
                    vals = [None]
                self.ob(loc, vals and all(v == ZERO for v in vals), "%s is not cleared" % fl, value=vals)
        v = th.f["body_soil_pos_"]
        self.ob(loc, isinstance(v, VList) and not v.items or isinstance(v, Sym) and f.norm(v.size[0]) == ZERO, "soil parcels exist in a new simulation state", value=v)
        eqv = th.f["equilibrium_"]
        self.ob(loc, isinstance(eqv, L.Bx) and holds(f, Not(eqv)), "a new simulation state is flagged as in equilibrium", value=eqv)
        for fl in ("body_area_", "relax_area_", "impact_area_"):
            a = th.f[fl]
            for ax in (0, 1):
                for k, want in ((0, ONE), (1, n[ax].scale(2))):
                    got = a.items[ax].items[k]
                    self.ob(loc, isinstance(got, Poly) and f.norm(got - want) == ZERO, "%s does not span the interior of axis %s" % (fl, "xy"[ax]), value=got)


def ctor(name, listeners):
    from . import run
    return run.interp_job(name, listeners, model=CModel)


def accept_jobs():
    return [ctor("Grid::Grid", [lambda: Accept(grid_req)]), ctor("SimParam::SimParam", [lambda: Accept(param_req), ParamValues]),
            ctor("Bucket::Bucket", [lambda: Accept(body_req), BodyPoints]), ctor("Blade::Blade", [lambda: Accept(body_req), BodyPoints])]


def storage_jobs():
    return [ctor("Grid::Grid", [Axes]), ctor("SimOut::SimOut", [Storage])]
