"""C15: exchanging the two walls of the columns (with the soil on them) before
an avalanche or a push exchanges the outcome.

The routine is followed along every path for arbitrary columns; each pair of
paths that describe a situation and its mirror image must end alike."""
from . import run, logic as L
from .poly import Poly, K, A, ZERO, ONE, ATOMS, atom, subst
from .logic import Bx, ge, gt, eq, ne, And, Or, Not, bsubst, infeasible
from .model import Model, NS, TOLP, PURE, start_state, RECF
from .interp import Interp
from .values import *
from .ir import Broken
from .soil import Obl, holds, peek, path_of

OTHER = {0: 2, 1: 3, 2: 0, 3: 1}


class MModel(Model):
    pass


# ------------------------------------------------------------ mirror image
class Mirror:
    def __init__(self, inds):
        self.extra = {a.id: K(2) - A(a) for a in inds}
        self.memo = {}

    def sub(self, deep):
        out = {}
        for x in deep:
            at = ATOMS[x]
            if at.id in self.extra:
                out[x] = self.extra[at.id]
            elif at.kind == "cell" and at.name.split("@")[0] in ("body", "bsoil"):
                k = at.args[0].cval() if isinstance(at.args[0], Poly) else None
                if k is None or int(k) not in OTHER:
                    raise Broken("a wall that is not known is compared (%s)" % at)
                out[x] = A(atom(at.kind, at.name, (K(OTHER[int(k)]),) + at.args[1:], at.isint, at.ht, at.dom, at.dim))
            elif at.kind == "cell" and at.name.split("@")[0].endswith(".ind"):
                out[x] = K(2) - A(at)
        return out

    def p(self, p):
        if p in self.memo:
            return self.memo[p]
        # base atoms only: composite ones are rebuilt by the substitution
        r = self.memo[p] = subst(p, self.sub(p.deep()))
        return r

    def b(self, b):
        return bsubst(b, self.sub(b.deep()))


def conditions(f):
    """everything known on a path, as a list of conditions"""
    out = [eq(A(ATOMS[a]) - v) for a, v in f.sub.items()]
    return out + list(f.ineq) + list(f.nes) + list(f.clauses)


def impossible(g):
    deep = set()
    for b in conditions(g):
        deep |= b.deep()
    return g.copy()._split(frozenset(deep), 8, [80])


# ------------------------------------------------------------ outcome of a path
class Outcome:
    def __init__(self, ip, st, ret):
        self.st, self.cells, self.recs, self.push = st, {}, {}, []
        self.ret = ret
        for e in st.seg:
            if e.kind == "loop" or e.kind in ("rw", "assign", "clear", "append", "pop"):
                raise Broken("the soil is not moved column by column (%s)" % e.kind)
            if e.kind == "w" and e.tag == "terrain":
                self.cell(("T",) + tuple(st.facts.norm(x) for x in e.key), e)
            elif e.kind == "w" and e.tag in ("bsoil", "body"):
                c = e.key[0].cval()
                if c is None:
                    raise Broken("a wall that is not known is written")
                self.cell((("S" if e.tag == "bsoil" else "B"), int(c)) + tuple(st.facts.norm(x) for x in e.key[1:]), e)
            elif e.kind == "w" and e.tag == "recs":
                k = (e.name, tuple(st.facts.norm(x) for x in e.key), e.field)
                o = self.recs.get(k)
                self.recs[k] = (o[0] if o else e.old, e.new, e)
            elif e.kind == "push":
                self.push.append((e.lv.root, {n: st.facts.norm(v) for n, v in e.val.items() if isinstance(v, Poly)}, e))
        self.warn = sum(1 for e in st.seg if e.kind == "log")
        self.loss = sum(1 for e in st.seg if e.kind == "loss")

    def cell(self, k, e):
        o = self.cells.get(k)
        self.cells[k] = (o[0] if o else e.old, e.new, e)

    def changes(self):
        f = self.st.facts
        return {k: f.norm(n) for k, (o, n, e) in self.cells.items() if f.norm(n - o) != ZERO}

    def where(self, ip, fd):
        es = [x[2] for x in self.cells.values()] + [x[2] for x in self.recs.values()] + [x[2] for x in self.push]
        return es[-1].loc if es else ip.loc(fd)


def distinct(st, ip, cols):
    """two walls of one column are never at the same height"""
    for i, j in cols:
        b = {}
        for n in range(4):
            r = peek(ip, st, "body_", (K(n), i, j))
            b[n] = r[0][1]
        st.facts.assume(Or(And(eq(b[0]), eq(b[1])), And(eq(b[2]), eq(b[3])), ne(b[0] - b[2])))


class Compare(Obl):
    """pairs of a path and the mirror image of another"""

    def __init__(self, what):
        super().__init__()
        self.what = what
        self.pairs = 0

    def all(self, ip, fd, ps, qs, mir, loc):
        for a, p in enumerate(ps):
            for q in qs:
                g = p.st.facts.copy()
                for c in conditions(q.st.facts):
                    if not g.assume(mir.b(c)):
                        break
                if not g.dead:
                    g.propagate_all()
                if g.dead or g.ineq and infeasible(g._cons(list(g.ineq))):
                    continue
                self.pair(ip, fd, p, q, g, mir, loc)

    def same(self, g, x, y):
        if isinstance(x, Bx) or isinstance(y, Bx):
            x = x if isinstance(x, Bx) else ne(x)
            y = y if isinstance(y, Bx) else ne(y)
            if g.bnorm(x) == g.bnorm(y):
                return True
            return holds(g, Or(Not(x), y)) and holds(g, Or(x, Not(y)))
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return type(x) == type(y) and repr(x) == repr(y)
        d = g.norm(x - y)
        return d == ZERO or holds(g, eq(d))

    def cellvals(self, ip, o, keys):
        """final values of the given cells"""
        f = o.st.facts
        out = {}
        for k in keys:
            fld, key = {"T": ("terrain_", k[1:]), "S": ("body_soil_", (K(k[1]) if k[0] != "T" else None,) + tuple(k[2:])),
                        "B": ("body_", (K(k[1]) if k[0] != "T" else None,) + tuple(k[2:]))}[k[0]]
            r = [(s, v) for s, v in peek(ip, o.st, fld, key) if not s.facts.dead]
            if len(r) != 1:
                raise Broken("a height has no single value at the end of a path")
            out[k] = r[0][1]
        return out

    def flip(self, k):
        return k if k[0] == "T" else (k[0], OTHER[k[1]]) + k[2:]

    def pair(self, ip, fd, p, q, g, mir, loc):
        self.pairs += 1
        bad = []

        def differ(what, x, y):
            bad.append("%s: %s, mirrored: %s" % (what, x, y))
        keys = set(p.cells) | {self.flip(k) for k in q.cells}
        pv = self.cellvals(ip, p, keys)
        qv = self.cellvals(ip, q, [self.flip(k) for k in keys])
        for k in keys:
            x, y = pv[k], mir.p(qv[self.flip(k)])
            if not self.same(g, x, y):
                differ(k, x, y)
        for k in set(p.recs) | set(q.recs):
            x = p.recs[k][1] if k in p.recs else q.recs[k][0]
            y = mir.p(q.recs[k][1] if k in q.recs else p.recs[k][0])
            if k[2] == "ind":
                y = K(2) - y
            if not self.same(g, x, y):
                differ(k, x, y)
        if len(p.push) != len(q.push):
            # parcels without soil do not count
            pp = [x for x in p.push if not holds(g, eq(x[1]["h_soil"]))]
            qq = [x for x in q.push if not holds(g, eq(mir.p(x[1]["h_soil"])))]
        else:
            pp, qq = p.push, q.push
        if len(pp) != len(qq):
            differ("parcels", [x[1] for x in pp], [x[1] for x in qq])
        else:
            left = list(qq)
            for r, v, e in pp:
                hit = None
                for y in left:
                    if y[0] == r and all(n in y[1] and n in v and self.same(g, v[n], (K(2) - mir.p(y[1][n])) if n == "ind" else mir.p(y[1][n]))
                                         for n in RECF):
                        hit = y
                        break
                if hit is None:
                    differ("parcel", v, [y[1] for y in left])
                else:
                    left.remove(hit)
        if len(p.ret) != len(q.ret):
            differ("result", p.ret, q.ret)
        else:
            for (k, x), (_, y) in zip(p.ret, q.ret):
                y = y if not isinstance(y, (Poly, Bx)) else mir.p(y) if isinstance(y, Poly) else mir.b(y)
                if k == "ind":
                    y = K(2) - y
                if not self.same(g, x, y):
                    differ("result", x, y)
        if bool(p.warn) != bool(q.warn):
            differ("warning", p.warn, q.warn)
        if bad and impossible(g):       # the two cannot meet
            bad = []
        self.ob(p.where(ip, fd) if p.cells or p.push else q.where(ip, fd), not bad,
                "%s treats the two walls of a column differently" % self.what, difference="; ".join(bad)[:900], path=path_of(p.st, 30), mirrored=path_of(q.st, 30))


# ------------------------------------------------------------ the situations
def value(n, **kw):
    return A(atom("par", "mir_" + n, **kw))


def fn(prog, name):
    c = [f for f in prog.byname.get(NS + name, []) if f.get("body") is not None]
    if len(c) != 1:
        raise Broken("%d functions are called %s" % (len(c), name))
    return c[0]


def setup(kw):
    m = MModel(listeners=[], **kw)
    m.pure = dict(PURE)
    ip = Interp(run.program(), m)
    st = start_state(m)
    st.store[("sim",)] = m.simout()
    st.store[("body",)] = m.bodyval(NS + "Body")
    return m, ip, st


def call(ip, fd, st, **vs):
    """call with arguments given by type and position among those of a type"""
    st = st.copy()
    from .ir import ptype, strip_ref
    ints, floats, ps = list(vs["ints"]), list(vs["floats"]), []
    nf = sum(1 for p in fd["params"] if strip_ref(ptype(p["t"])) == ("float",))
    m = ip.model
    for p in fd["params"]:
        t = strip_ref(ptype(p["t"]))
        if t[0] == "ptr" and t[1][0] == "rec":
            v = Ptr(LV(("sim",))) if t[1][1] == NS + "SimOut" else Ptr(LV(("body",)))
        elif t[0] == "ptr":
            v = Ptr(LV(("new",)))
        elif t == ("int",):
            v = ints.pop(0)
        elif t == ("float",):
            v = floats.pop(0)
        elif t == ("bool",):
            v = vs["flag"]
        elif t[0] == "rec" and t[1] == NS + "Grid":
            v = m.grid()
        else:
            raise Broken("parameter %s of %s" % (p["t"], fd["name"]))
        if ptype(p["t"])[0] == "ref":
            root = ("arg", fd["name"], p["n"])
            st.store[root] = v
            v = RefV(LV(root))
        ps.append(v)
    if ints or floats:
        raise Broken("%s takes other arguments than known" % fd["name"])
    ip.fstack.append(fd)
    try:
        return [(s, v) for s, v in ip.inline(fd, ps, st, None, {"l": fd["line"]}) if not s.facts.dead]
    finally:
        ip.fstack.pop()


def report(r, ip, cmp, paths):
    r.viol += [(f, l, msg, d) for (f, l, msg), d in cmp.viol.items()]
    r.obligations += cmp.n
    r.sites |= cmp.sites
    r.info = {"paths": paths, "pairs of paths": cmp.pairs, "statements": len(ip.stats["stmts"]),
              "functions": sorted(run.short(c) for c in ip.stats["calls"])}
    if not cmp.pairs:
        raise Broken("no pair of mirrored paths was found")
    return r


def rows(ip, outs):
    return [(s, v) for s, v in outs if not s.facts.dead]


def avalanche(wall):
    """an avalanche from the ground (wall None) or from the soil on a wall"""
    prog = run.program()
    chk = fn(prog, "CheckUnstableBodyCell" if wall else "CheckUnstableTerrainCell")
    rel = fn(prog, "RelaxUnstableBodyCell" if wall else "RelaxUnstableTerrainCell")
    cmp = Compare("an avalanche of soil on a wall" if wall else "an avalanche of ground")
    m, ip, st0 = setup({"relax": True})
    i, j = value("ii", isint=True), value("jj", isint=True)
    ic, jc = i + ONE, j
    dh = value("dh", ht=True)
    st0.facts.assume(gt(dh))
    nn = value("nn", isint=True)
    inds = {}
    res = {}
    for k in ((0, 2) if wall else (None,)):
        st = st0.copy()
        if wall:
            st.store[("new",)] = Sym("newrecs", "gen", 1, m.simout().f["body_soil_pos_"].leaf, {f: "0" for f in RECF}, (), (value("nnew", isint=True),))
            for fld, v in (("ind", K(k)), ("ii", i), ("jj", j)):
                alive = [s for s, x in peek(ip, st, "body_soil_pos_", (nn,), fld) if s.facts.assume(eq(x - v)) and not s.facts.dead]
                if len(alive) != 1:
                    raise Broken("a parcel of soil has no definite %s" % fld)
                st = alive[0]
        distinct(st, ip, ((i, j), (ic, jc)))
        top = peek(ip, st, "body_soil_", (K(k + 1), i, j))[0][1] if wall else peek(ip, st, "terrain_", (i, j))[0][1]
        ps = []
        for s, v in call(ip, chk, st, ints=[i, j, K(k), ic, jc] if wall else [ic, jc], floats=[top - dh, TOLP]):
            if not isinstance(v, Poly) or s.facts.norm(v).cval() is None:
                raise Broken("the kind of avalanche is not a number")
            c = int(s.facts.norm(v).cval())
            if c == 0:
                ps.append(Outcome(ip, s, [("moves", ZERO)]))
                continue
            for s2, _ in call(ip, rel, s, ints=[K(c), nn, i, j, K(k), ic, jc] if wall else [K(c), i, j, ic, jc], floats=[dh, TOLP]):
                ps.append(Outcome(ip, s2, [("moves", ONE)]))
        res[k] = ps
    mir = Mirror([])
    r = run.Result()
    if wall:
        cmp.all(ip, chk, res[0], res[2], mir, None)
    else:
        cmp.all(ip, chk, res[None], res[None], mir, None)
    return report(r, ip, cmp, sum(map(len, res.values())))


def push():
    """one step of pushing soil out of a wall"""
    prog = run.program()
    fd = fn(prog, "MoveBodySoil")
    cmp = Compare("pushing soil out of a wall")
    m, ip, st0 = setup({})
    i, j = value("ii", isint=True), value("jj", isint=True)
    ic, jc = i + ONE, j
    h, mh = value("h", ht=True), value("max_h", ht=True)
    st0.facts.assume(gt(h))
    res = {}
    for k in (0, 2):
        st = st0.copy()
        distinct(st, ip, ((i, j), (ic, jc)))
        ps = []
        for s, v in call(ip, fd, st, ints=[K(k), i, j, ic, jc], floats=[mh, h, TOLP], flag=ne(value("wall", isint=True, dom=(0, 1)))):
            if not isinstance(v, VList) or len(v.items) != 5:
                raise Broken("the result of a push is not known")
            n = s.facts
            ps.append(Outcome(ip, s, list(zip(("ind", "ii", "jj", "h", "wall"), v.items))))
        res[k] = ps
    r = run.Result()
    cmp.all(ip, fd, res[0], res[2], Mirror([]), None)
    return report(r, ip, cmp, sum(map(len, res.values())))


def mirror_jobs():
    return [run.Job("avalanche of ground", lambda: avalanche(False)), run.Job("avalanche on a wall", lambda: avalanche(True)),
            run.Job("push", push)]
