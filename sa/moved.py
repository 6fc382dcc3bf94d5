"""The movement test (C19): every corner, every direction, both thresholds."""
from . import logic as L
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, CELLXY, CELLZ, atom
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS, flat
from .values import *
from .facts import add_axioms
from .soil import Obl, holds, path_of
from fractions import Fraction as Fr

CORNERS = NS + "CalcBodyCornerPos"


class MModel(Model):
    """corner positions are opaque functions of the pose"""

    def __init__(self, **kw):
        super().__init__(**kw)
        add_axioms(CELLXY, [L.Bx("gt", A(CELLXY))])

    def lasttol(self, fd, p):
        return False

    def small_loop(self, ip, s, st, cond, inc, body):
        return 9

    def summary(self, ip, st, fd, vs, e, this):
        if fd["name"] == CORNERS:
            args = []
            for v in vs[:2]:
                if isinstance(v, RefV):
                    r = ip.load(st, v.lv, e)
                    v = r[0][1]
                flat(ip, st, v, args)
            b = vs[2]
            if isinstance(b, RefV):
                b = ip.load(st, b.lv, e)[0][1]
            if not (isinstance(b, Ptr) and b.lv is not None and b.lv.root == ("body",)):
                args.append(A(atom("opq", "otherbody")))
            return [(st, corners(tuple(args)))]
        return super().summary(ip, st, fd, vs, e, this)


def corners(args):
    return VList([VList([A(atom("app", "corner%d.%d" % (c, k), args)) for k in range(3)], ("float",)) for c in range(6)])


def cases(st, limit=4000):
    """the state split by which argument every minimum and maximum it mentions takes"""
    out, done = [st], set()
    while True:
        ab = set()
        for b in list(st.facts.ineq) + list(st.facts.clauses):
            ab |= {x for x in b.deep() if ATOMS[x].kind == "app" and ATOMS[x].name in ("min", "max")}
        ab -= done
        if not ab or len(out) > limit:
            return out
        x = max(ab)
        done.add(x)
        nxt = []
        for s in out:
            for a in ATOMS[x].args:
                t = s.copy()
                if t.facts.assume(eq(A(ATOMS[x]) - a)) and not t.facts.dead:
                    nxt.append(t)
        out = nxt


class Movement(Obl):
    def __init__(self):
        super().__init__()
        self.rets = set()

    def exit(self, ip, st, sig, fd):
        f, loc, m = st.facts, ip.loc(fd), ip.model
        b = m.bodyval(NS + "Body")
        new = tuple(m.vec("pos", 3).items) + tuple(m.vec("ori", 4).items)
        old = tuple(b.f["pos_"].items) + tuple(b.f["ori_"].items)
        N, F = corners(new), corners(old)
        d2 = []
        for c in range(6):
            t = ZERO
            for k in range(3):
                d = N.items[c].items[k] - F.items[c].items[k]
                t = t + d * d
            d2.append(f.norm(t))
        ds = [A(atom("app", "sqrt", (x,))) for x in d2]
        cells = [A(CELLXY), A(CELLZ)]

        def over(k, strict, sq):
            """some displacement is at least (more than) k times some cell dimension"""
            op = gt if strict else ge
            if sq:
                return Or(*[op(x - (h * h).scale(k * k)) for x in d2 for h in cells])
            return Or(*[op(x - h.scale(k)) for x in ds for h in cells])

        ret = sig[1] if sig[0] == "ret" else None
        if not self.ob(loc, isinstance(ret, L.Bx), "the movement test has no result", result=sig):
            return
        half, two = Fr(1, 2), Fr(2)
        log = [e for e in st.seg if e.kind == "log" and (e.sev is None or e.sev >= 1)]
        for val in (True, False):
            s = st.copy()
            if not s.facts.assume(ret if val else Not(ret)) or s.facts.dead:
                continue
            f = s.facts
            self.rets.add(val)
            parts = None

            def dec(q):
                nonlocal parts
                if any(holds(f, q(sq)) for sq in (False, True)):
                    return True
                parts = parts or cases(s)
                return all(any(holds(t.facts, q(sq)) for sq in (False, True)) for t in parts)
            if val:
                self.ob(loc, dec(lambda sq: over(half, False, sq)), "an update is decided although no corner moved by half a cell", path=path_of(s))
            else:
                self.ob(loc, dec(lambda sq: Not(over(half, False, sq))), "no update is decided although a corner may have moved by half a cell or more", path=path_of(s))
            if log:
                self.ob(log[0].loc, dec(lambda sq: over(two, True, sq)), "a large movement is reported although no corner moved by more than two cells", path=path_of(s))
            else:
                self.ob(loc, dec(lambda sq: Not(over(two, True, sq))), "a movement of a corner by more than two cells may go unreported", path=path_of(s))

    def done(self):
        if self.rets != {True, False}:
            self.fail(("?", 0), "the movement test does not decide both ways")


def move_jobs():
    from . import run
    return [run.interp_job("CheckBodyMovement", [Movement], model=MModel)]
