"""C27: accesses to tables whose extent is fixed by the code stay inside them."""
from fractions import Fraction as Fr
import math
from .poly import Poly, K, A, ATOMS, ZERO, ONE, atom, fresh
from .values import *
from .ir import ptype, strip_ref
from . import model as M, initial, memory, run
from .model import NS, Model

INF = float("inf")


# ---------------------------------------------------------------- intervals
def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def mul(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return (min(ps), max(ps))


def power(a, n):
    if n < 0:
        if a[0] <= 0 <= a[1]:
            return (-INF, INF) if a[0] < 0 else ((0.0 if a[1] == INF else 1 / a[1]) ** -n, INF)
        lo, hi = sorted((1 / a[0], 1 / a[1]))
        return power((lo, hi), -n)
    r = (1.0, 1.0)
    for _ in range(n):
        r = mul(r, a)
    if n % 2 == 0 and n:
        r = (max(r[0], 0.0), r[1])
    return r


def fl(x, f):
    return x if abs(x) == INF else float(f(x))


def span(p, env, f=None):
    """interval of the values a polynomial can take; env: atom id -> interval"""
    g = {}
    for m, c in p.t.items():
        k, rest = (float(c), float(c)), []
        for a, n in m:
            if constant(ATOMS[a]):
                k = mul(k, power(aspan(ATOMS[a], env, f), n))
            else:
                rest.append((a, n))
        rest = tuple(rest)
        g[rest] = add(g[rest], k) if rest in g else k
    r = (0.0, 0.0)
    for m, k in g.items():
        t = (1.0, 1.0)
        q = env.get("pair")
        if q:
            t, m = q(m)
        for a, n in m:
            t = mul(t, power(aspan(ATOMS[a], env, f), n))
        r = add(r, mul(k, t))
    return r


def constant(a):
    return a.kind == "app" and a.name in ("sqrt",) and all(isinstance(x, Poly) and x.cval() is not None for x in a.args)


def aspan(a, env, f):
    r = env.get(a.id)
    if r is not None:
        return r
    if a.dom:
        return (float(min(a.dom)), float(max(a.dom)))
    xs = [span(x, env, f) if isinstance(x, Poly) else (-INF, INF) for x in a.args] if a.kind == "app" else []
    n = a.name if a.kind == "app" else None
    if n == "sqrt" and xs[0][0] >= 0:
        return (math.sqrt(xs[0][0]) * (1 - 1e-9), INF if xs[0][1] == INF else math.sqrt(xs[0][1]) * (1 + 1e-9))
    if n in ("floor", "trunc", "ceil", "round"):
        # float rounding of an argument below an integer may reach it
        g = {"floor": math.floor, "ceil": math.ceil, "round": round, "trunc": math.trunc}[n]
        return (fl(xs[0][0] - 1e-9 * (xs[0][0] != 0), g), fl(xs[0][1] + 1e-9, g))
    if n == "band":
        for k, x in enumerate(xs):
            if x[0] == x[1] and x[0] >= 0:
                o = xs[1 - k]
                return (0.0, min(x[0], o[1]) if o[0] >= 0 else x[0])
        return (0.0, min(x[1] for x in xs)) if all(x[0] >= 0 for x in xs) else (-INF, INF)
    if n == "mod" and xs[1][0] == xs[1][1] and xs[1][0] > 0:
        h = xs[1][0] - 1
        return (0.0 if xs[0][0] >= 0 else -h, h)
    if n == "abs":
        lo, hi = xs[0]
        return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
    if n in ("min", "max"):
        g = min if n == "min" else max
        return (g(x[0] for x in xs), g(x[1] for x in xs))
    if n in ("sin", "cos"):
        return (-1.0, 1.0)
    return (-INF, INF)


# ---------------------------------------------------------------- the noise
# largest value an octave argument may take for a grid as the code builds it:
# (first coordinate - coordinate) / (2 * first coordinate) lies in [0, 1.5]
# (1 up to the half cell by which an extent that is no multiple of the cell
# size shifts the table)
class NoiseModel(Model):
    foldlists = True
    bounds = True
    low, top = 0.0, 12.0

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.env = {}

    def bind(self, fd, st):
        vs = []
        for p in fd["params"]:
            t = ptype(p["t"])
            t0 = strip_ref(t)
            if t0[0] in ("float", "int"):
                at = atom("par", "arg_" + p["n"], isint=t0[0] == "int")
                self.env[at.id] = (self.low, self.top)
                v = A(at)
            elif t0[0] in ("vec", "arr") and t0[1][0] in ("int", "float"):
                v = Sym("perm", "perm", 1, t0[1], {"": "0"}, (), (K(256),))
            else:
                v = None
            if v is None:
                raise M.Broken("parameter %s of %s" % (p["t"], fd["name"]))
            if t[0] == "ref":
                root = ("arg", p["n"])
                st.store[root] = v
                v = RefV(LV(root))
            elif t[0] == "ptr":
                root = ("arg", p["n"])
                st.store[root] = v
                v = Ptr(LV(root))
            vs.append(v)
        return vs

    def base(self, ip, st, sym, key, field, e):
        if sym.tag == "perm":
            c = ip.cell(sym, key, field, ("int",))
            self.env[c.id] = (0.0, 255.0)
            return [(st, A(c))]
        return super().base(ip, st, sym, key, field, e)

    def within(self, st, k, n):
        lo, hi = span(k, self.env)
        h = span(n, self.env)[0]
        return lo >= 0 and hi < h or super().within(st, k, n)


def octaves(ev):
    """upper bound of the arguments of a call of the noise"""
    def pair(m):
        # coordinate over first coordinate of the same axis
        d = dict(m)
        vs = [a for a in d if ATOMS[a].name.startswith("vect_")]
        if len(vs) == 2 and sum(d[a] for a in vs) == 0 and abs(d[vs[0]]) == 1 \
                and len({ATOMS[a].name for a in vs}) == 1:
            den = [a for a in vs if d[a] == -1][0]
            if ATOMS[den].args[0] == ZERO or ATOMS[den].args[0] == (ZERO,) or ATOMS[den].args == ((ZERO,),):
                return (-2.0, 1.0), tuple((a, n) for a, n in m if a not in vs)
        return (1.0, 1.0), m
    out = []
    for p in (ev.x, ev.y):
        out.append(span(p, {"pair": pair}))
    return out


class Octaves:
    """the bounds of the noise arguments at its call sites"""
    wants_write = False

    def __init__(self):
        self.viol, self.n, self.sites = {}, 0, set()
        self.top, self.low = 0.0, 0.0

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind == "noise":
                self.sites.add(e.loc)
                for lo, hi in octaves(e):
                    self.n += 1
                    if abs(lo) != INF and abs(hi) != INF:
                        self.top = max(self.top, hi)
                        self.low = min(self.low, lo)

    def iteration(self, ip, loop, head, back):
        self.cut(ip, back, back.seg, "it", None)

    def write(self, ip, s, ev):
        pass

    def exit(self, ip, st, sig, fd):
        pass


# ---------------------------------------------------------------- every routine
def sign(f, p):
    """p >= 0 by the signs of its factors"""
    p = f.norm(p)
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, n in m:
            if n % 2 == 0:
                continue
            a = ATOMS[a]
            if a.kind == "app" and a.name in ("round", "floor", "ceil", "trunc", "sqrt"):
                if a.name != "sqrt" and not sign(f, a.args[0]):
                    return False
            elif not f.prove(M.ge(A(a)), 1):
                return False
    return True


def fixed(base):
    """the model of a routine with every access checked"""
    class B(base):
        bounds = True

        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            self.counted = []

        def within(self, st, k, n):
            if super().within(st, k, n):
                return True
            if k.cval() is not None and k.cval() >= 0 and sign(st.facts, n - k - ONE):
                return True
            if n == A(atom("par", "ndec", isint=True)):
                # as many elements as the decomposition counts cells: see Counted
                self.report(self.counted.append, (self.at(self.ip_, None), k))
                return True
            a = k.as_atom()
            if a is not None and ATOMS[a.id].kind == "cell" and ATOMS[a.id].name.startswith(("recs.ii", "recs.jj")):
                self.assumed.add("recorded parcels lie inside the grid (N04)")
                return True
            return False
    B.__name__ = "Bounds" + base.__name__
    return B


class Counted:
    """a table sized by the number of cells inside a wall (four per corner
    inside it, C17) is filled four elements at a time"""
    wants_write = False

    def __init__(self):
        self.viol, self.n, self.sites = {}, 0, set()
        self.cnt = {}
        self.m = None

    def cut(self, ip, st, seg, why, node):
        self.m = ip.model

    def write(self, ip, s, ev):
        pass

    def iteration(self, ip, loop, head, back):
        self.m = ip.model
        f = back.facts
        for c in loop.numeric():
            hv, v, e0 = loop.headval(c, None), loop.getq(back, c), loop.getq(loop.entry, c)
            if isinstance(hv, Poly) and isinstance(v, Poly) and len(hv.deep()) == 1:
                self.cnt.setdefault(hv, []).append((f.norm(v - hv).cval(), e0.cval() if isinstance(e0, Poly) else None))

    def exit(self, ip, st, sig, fd):
        pass

    def done(self):
        for loc, k in getattr(self.m, "counted", ()):
            self.n += 1
            self.sites.add(loc)
            ok = False
            for hv, ds in self.cnt.items():
                o = (k - hv).cval()
                if o is not None and 0 <= o < 4 and all(d is None or 0 <= d <= 4 for d, _ in ds) and any(d == 4 for d, _ in ds):
                    ok = True
            if not ok:
                self.viol[(loc[0], loc[1], "an element is used beyond the number of cells counted for the wall")] = {"index": repr(k)}


WHOLE = ("SoilDynamics::Init", "CheckVolume", "Grid::Grid")


def report(r, ip, fd, out, m, ls):
    for (f, l, what, d), v in m.outs.items():
        r.viol.append((f, l, "an access may lie outside its container (%s, index %d)" % (what, d + 1), {"index": v}))
    for (fn, c, n) in m.oobs:
        g = [x for x in ip.prog.functions.values() if x["name"] == fn]
        w = g[0] if g else fd
        r.viol.append((w.get("file", "?"), w.get("line", 0), "element %s of a container with %s elements is used" % (c, n), {}))
    r.obligations += m.nacc
    for k in ip.stats["stmts"]:
        if isinstance(k, tuple):
            r.sites.add(k)


def bounds_jobs():
    out = []
    for j in memory.memory_jobs(listeners=(Counted,)):
        fname, ls, relax, stale, model, post, pure, kw = j.spec
        cls = fixed(model or Model)
        if fname in WHOLE:
            cls.wholegrid = True
        k = run.interp_job(fname, ls, relax=relax, stale=stale, model=cls, post=report, pure=pure, **kw)
        k.weight = j.weight
        out.append(k)
    out.append(run.Job("simplex_noise", noise, 3))
    return out


def noise():
    o = run.interp_job("SoilDynamics::Init", [Octaves], model=initial.InitModel, post=lambda r, ip, fd, out, m, ls: setattr(r, "top", (ls[0].top, ls[0].low))).fn()
    top, low = o.top
    cls = type("NoiseModel", (NoiseModel,), {"top": top or 12.0, "low": min(low, 0.0)})
    r = run.interp_job("simplex_noise", [], model=cls, post=report, pure={}).fn()
    r.sites |= o.sites
    r.info["octaves"] = "arguments between %s and %s" % (min(low, 0.0), top or 12.0)
    return r
