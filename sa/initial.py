"""The initial terrain (C25)."""
from . import cover, logic as L
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, atom, subst, is_ht, ppow
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS
from .values import *
from .soil import Obl, holds, path_of, Multiples
from fractions import Fraction as Fr

NOISE = NS + "simplex_noise"
HALF = Fr(1, 2)


class InitModel(Model):
    def lasttol(self, fd, p):
        return False

    def summary(self, ip, st, fd, vs, e, this):
        if fd["name"] == NOISE:
            st = st.copy()
            v = []
            for x in vs:
                if isinstance(x, RefV):
                    x = ip.load(st, x.lv, e)[0][1]
                v.append(x)
            x, y = [st.facts.norm(q) for q in v[:2]]
            ip.emit(st, "noise", e, x=x, y=y, table=v[2])
            return [(st, A(atom("app", "noise", (x, y))))]
        return super().summary(ip, st, fd, vs, e, this)


def names(p):
    return {ATOMS[a].name for a in p.deep()}


TOUCH = ("w", "rw", "set", "assign", "push", "clear", "pop", "append", "static")


class Terrain(Obl):
    """every column gets its own rounded noise; nothing else is written; draws come from the shared generator"""

    def __init__(self):
        super().__init__()
        self.loops = {}
        self.where = ("?", 0)
        self.rng = False
        self.pend = None
        self.writes = 0

    def cut(self, ip, st, seg, why, node):
        self.pend = seg if why == "back" else None
        for e in seg:
            if e.kind == "rng":
                self.rng = True
                self.ob(e.loc, e.gen.root[0] == "g", "the permutation is not drawn from the shared generator", generator=e.gen)
            elif e.kind in TOUCH and not (e.kind == "w" and e.tag == "terrain"):
                if e.kind == "w" and e.tag == "gen":
                    continue
                self.ob(e.loc, False, "initialisation changes something else than the ground", event=e.kind, what=e.d.get("tag") or e.d.get("lv"))
            elif e.kind == "noise":
                t = e.table
                if isinstance(t, Perm):
                    self.ob(e.loc, sorted(x.cval() if isinstance(x, Poly) else -1 for x in t.rows) == list(range(256)),
                            "the noise does not use a permutation of 0..255", table=t)
                elif isinstance(t, VList):
                    self.ob(e.loc, False, "the permutation of the noise is not drawn at random", table=t)

    def iteration(self, ip, loop, head, back):
        if back.facts.dead:
            return
        seg = self.pend if self.pend is not None else back.seg[len(head.seg):]
        self.pend = None
        ws = [e for e in seg if e.kind == "w" and e.tag == "terrain"]
        self.loops.setdefault(id(loop), []).append((ip.loc(loop.s), bool(ws), path_of(back), loop))
        fd = ip.fstack[0]
        self.amp = A(atom("par", "arg_" + [p["n"] for p in fd["params"] if p["t"] in ("float", "double", "const float")][0]))
        for e in ws:
            self.writes += 1
            self.column(ip, loop, back, e)

    def exit(self, ip, st, sig, fd):
        self.where = ip.loc(fd)

    def done(self):
        for its in self.loops.values():
            if any(w for _, w, _, _ in its):
                for loc, w, path, _ in its:
                    self.ob(loc, w, "a column may be left without a height", path=path)
        self.ob(self.where, self.writes > 0, "no loop sets the heights of the ground")
        self.ob(self.where, self.rng, "the noise does not use the seeded generator")

    def column(self, ip, loop, b, e):
        f = b.facts
        rs = [(q, r) for q in cover.nest(loop) for r in cover.ranges(q)]
        n = ip.model.gsize()
        key = [f.norm(k) for k in e.key]
        for ax in (0, 1):
            ok = [q for q, r in rs if r.lo == ZERO and f.norm(r.hv - key[ax]) == ZERO and f.norm(r.hi - n[ax]) == ZERO and not cover.early(q)]
            self.ob(e.loc, bool(ok), "the ground is not set for every index of axis %s" % "xy"[ax], index=key[ax])
        v = f.norm(e.new)
        q = f.norm(v * ppow(C, -1)).as_atom()
        q = ATOMS[q.id] if q is not None else None
        if not self.ob(e.loc, q is not None and q.name in ("round", "floor", "trunc"), "the initial height is not rounded to the cell height", value=v):
            return
        u = q.args[0] if q.name == "round" else q.args[0] - K(HALF)
        u = f.norm(u)
        self.ob(e.loc, subst(u, {self.amp.as_atom().id: ZERO}) == ZERO and not (f.norm(u * ppow(self.amp, -1)).deep() & self.amp.deep()),
                "the initial height is not proportional to the requested amplitude before it is rounded to the nearest cell height", value=u)
        ns = [ATOMS[a] for a in u.deep() if ATOMS[a].name == "noise"]
        self.ob(e.loc, bool(ns), "the initial height does not come from the noise", value=u)
        inv = [m for m, c in u.t.items() for x, k in m if k < 0 and any(ATOMS[y].name == "noise" for y in A(ATOMS[x]).deep())]
        self.ob(e.loc, not inv, "the initial height divides by the noise, which may be zero", value=u)
        for a in ns:
            for ax in (0, 1):
                p = f.norm(a.args[ax])
                o = "vect_y" if ax == 0 else "vect_x"
                nm = {x.split("@")[0] for x in names(p)}
                self.ob(e.loc, bool(p.deep() & key[ax].deep()) and not (p.deep() & key[1 - ax].deep()) and o not in nm,
                        "the noise of a column does not use its own %s position" % "xy"[ax], position=p)


def init_jobs():
    from . import run
    return [run.interp_job("SoilDynamics::Init", [Terrain], model=InitModel)]


# ---------------------------------------------------------------- C06 outside the soil-moving phases
class NewExtents(Obl):
    """walls enter a column with heights that are whole multiples of the cell height"""

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind == "include":
                for h in e.args[2:4]:
                    v = st.facts.norm(h)
                    self.ob(e.loc, is_ht(v), "a wall is given a height that need not be a whole multiple of the cell height", value=v)

    def iteration(self, ip, loop, head, back):
        self.cut(ip, back, back.seg, "it", None)


def multiple_jobs():
    from . import run, raster
    return [run.interp_job("SoilDynamics::Init", [Multiples], model=InitModel),
            run.interp_job("IncludeNewBodyPos", [Multiples], model=raster.PosModel),
            run.interp_job("UpdateBody", [NewExtents], model=raster.RunModel)]
