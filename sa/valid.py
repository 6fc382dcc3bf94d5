"""Validation of the simulation state (C16)."""
from . import cover, logic as L
from .poly import Poly, K, A, C, ZERO, ONE, TOL, ATOMS, atom, fresh
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Model, NS, TOLP
from .values import *
from .interp import div, mk
from .soil import Obl, holds, path_of

TOUCH = ("w", "rw", "set", "assign", "push", "clear", "pop", "append", "static", "swap")


class VModel(Model):
    """nothing is known about the state that is validated"""

    def column(self, ip, st, i, j, sym, slot):
        pass

    def base(self, ip, st, sym, key, field, e):
        """heights are arbitrary numbers"""
        t = sym.tag
        if t == "terrain":
            return [(st, st.facts.norm(A(ip.cell(sym, key, field, ("float",), ht=False))))]
        if t in ("body", "bsoil") and key[0].cval() is not None:
            if not 0 <= key[0].cval() <= 3:
                self.oob(ip, st, key[0].cval(), 4)
                return [(st, A(fresh("oob")))]
            return [(st, st.facts.norm(A(ip.cell(sym, key, field, ("float",), ht=False))))]
        return super().base(ip, st, sym, key, field, e)

    def rec(self, ip, st, sym, key, field, e):
        if field == "ind":
            return super().rec(ip, st, sym, key, field, e)
        t = ("int",) if field in ("ii", "jj") else ("float",)
        return [(st, A(ip.cell(sym, key, field, t, ht=False)))]


def within(f, x):
    """|x| <= tol, written as a distance or as two bounds"""
    x = f.norm(x)
    return holds(f, ge(TOLP - mk("abs", x))) or holds(f, And(ge(TOLP - x), ge(TOLP + x)))


def beyond(f, xs):
    """one of xs is larger than tol in absolute value"""
    xs = [f.norm(x) for x in xs]
    return holds(f, Or(*[gt(mk("abs", x) - TOLP) for x in xs])) or holds(f, Or(*[Or(gt(x - TOLP), gt(-x - TOLP)) for x in xs]))


def simsym(st, f):
    return st.store[("sim",)].f[f]


def colvals(ip, st, i, j):
    t, b, s = simsym(st, "terrain_"), simsym(st, "body_"), simsym(st, "body_soil_")
    n = lambda p: st.facts.norm(p)
    return (n(A(ip.cell(t, (i, j), "", ("float",), ht=False))),
            [n(A(ip.cell(b, (K(k), i, j), "", ("float",), ht=False))) for k in range(4)],
            [n(A(ip.cell(s, (K(k), i, j), "", ("float",), ht=False))) for k in range(4)])


def conventions(t, b, s):
    """[(text, condition)] of one column; a wall or its soil is present when either height is not zero"""
    P = lambda v, k: Or(ne(v[k]), ne(v[k + 1]))
    out = []
    for k in (0, 2):
        w = "first" if k == 0 else "second"
        out.append(("the ground is at or below the %s wall" % w, Or(Not(P(b, k)), ge(b[k] + TOLP - t))))
        out.append(("the %s wall is ordered" % w, Or(Not(P(b, k)), ge(b[k + 1] - TOLP - b[k]))))
        out.append(("the soil on the %s wall is ordered" % w, Or(Not(P(s, k)), ge(s[k + 1] + TOLP - s[k]))))
        out.append(("the %s wall is at or below its soil" % w, Or(Not(P(s, k)), ge(s[k] + TOLP - b[k + 1]))))
        out.append(("soil on the %s wall needs that wall" % w, Or(Not(P(s, k)), P(b, k))))
        out.append(("soil rests on the %s wall" % w, Or(Not(P(s, k)), eq(s[k] - b[k + 1]))))
        o = 2 - k
        out.append(("the soil on the %s wall is clear of the other wall" % ("second" if k == 0 else "first"),
                    Or(Not(P(b, k)), Not(P(s, o)), ge(s[o] - b[k + 1] + TOLP), ge(b[k] - s[o + 1] + TOLP))))
    out.append(("the two walls are apart", Or(Not(P(b, 0)), Not(P(b, 2)), ge(b[2] - b[1] - TOLP), ge(b[0] - b[3] - TOLP))))
    return out


def columns(ip, st, names=("terrain", "body", "bsoil")):
    """the columns a state knows something about"""
    out = {}
    ids = set()
    for b in list(st.facts.ineq) + list(st.facts.clauses):
        ids |= b.deep()
    for f in ("terrain_", "body_", "body_soil_"):
        pass
    for a in ids:
        at = ATOMS[a]
        if at.kind == "cell" and at.name.split("@")[0].split(".")[0] in names:
            k = [x for x in at.args if isinstance(x, Poly)]
            if len(k) >= 2:
                i, j = st.facts.norm(k[-2]), st.facts.norm(k[-1])
                out[(repr(i), repr(j))] = (i, j)
    return list(out.values())


def warned(seg):
    return any(e.kind == "log" and e.d.get("sev", 0) >= 1 for e in seg)


class Quiet(Obl):
    """common part: nothing of the simulation is written; a warning exactly on the paths that fail"""

    def __init__(self):
        super().__init__()
        self.pend = ()

    def cut(self, ip, st, seg, why, node):
        self.pend = seg if why == "back" else ()
        for e in seg:
            if e.kind not in TOUCH:
                continue
            r = e.d.get("root") or (e.lv.root if "lv" in e.d and hasattr(e.lv, "root") else None)
            if r in (("sim",), ("body",), ("grid",)) or e.kind == "static":
                self.ob(e.loc, False, "the validation changes the simulation", event=e.kind)
            elif e.kind in ("rw", "assign", "swap") and r is None and e.d.get("tag") in ("terrain", "body", "bsoil", "recs"):
                self.ob(e.loc, False, "the validation changes the simulation", event=e.kind)

    def iteration(self, ip, loop, head, back):
        if back.facts.dead:
            return
        seg = self.seg = self.pend + back.seg[len(head.seg):]
        self.pend = ()
        self.ob(ip.loc(loop.s), not warned(seg), "a warning is given although the validation goes on", path=path_of(back))
        self.each(ip, loop, head, back)

    def result(self, ip, st, sig, fd):
        if sig[0] != "ret" or not isinstance(sig[1], Bx):
            self.ob(ip.loc(fd), False, "the validation does not give a truth value", result=sig)
            return None
        d = st.facts.decide(sig[1])
        loc = self.retloc(ip, st, fd)
        if self.ob(loc, d is not None, "the result of the validation is not decided on a path", path=path_of(st)):
            self.ob(loc, warned(st.seg) == (d is False), "a failed validation gives no warning" if d is False else
                    "a warning is given although the validation succeeds", path=path_of(st))
        return d

    def retloc(self, ip, st, fd):
        return st.x.get("retloc") or ip.loc(fd)


class Layout(Quiet):
    """CheckSoil: false exactly when some column of the body area breaks a convention"""

    def __init__(self):
        super().__init__()
        self.full = []
        self.exits = 0

    def each(self, ip, loop, head, back):
        f = back.facts
        rs = [(q, r) for q in cover.nest(loop) for r in cover.ranges(q)]
        area = back.store[("sim",)].f["body_area_"]
        got = {}
        for ax in (0, 1):
            lo, hi = area.items[ax].items
            for q, r in rs:
                if f.norm(r.lo - lo) == ZERO and f.norm(r.hi - hi) == ZERO:
                    got[ax] = r.hv
        self.sites.add(tuple(ip.loc(loop.s)))
        if len(got) < 2:
            if not any(p is loop for q in self.full for p in cover.nest(q[1])):
                self.full.append((ip.loc(loop.s), loop, False))
            return
        i, j = f.norm(got[0]), f.norm(got[1])
        ok = True
        for txt, c in conventions(*colvals(ip, back, i, j)):
            g = holds(f, c)
            ok = ok and g
            self.ob(ip.loc(loop.s), g, "a column is accepted although not (%s)" % txt, path=path_of(back))
        self.full.append((ip.loc(loop.s), loop, True))

    def exit(self, ip, st, sig, fd):
        d = self.result(ip, st, sig, fd)
        self.exits += 1
        if d is None:
            return
        cols = columns(ip, st)
        area = st.store[("sim",)].f["body_area_"]
        f = st.facts
        if d is False:
            ok = False
            for i, j in cols:
                cs = [c for _, c in conventions(*colvals(ip, st, i, j))]
                if holds(f, Or(*[Not(c) for c in cs])):
                    inside = all(holds(f, ge(k - area.items[ax].items[0])) and holds(f, gt(area.items[ax].items[1] - k))
                                 for ax, k in ((0, i), (1, j)))
                    ok = ok or inside
            self.ob(self.retloc(ip, st, fd), ok, "the layout is rejected although the column examined keeps every convention", path=path_of(st))
        else:
            for i, j in cols:
                cs = [c for _, c in conventions(*colvals(ip, st, i, j))]
                self.ob(self.retloc(ip, st, fd), not holds(f, Or(*[Not(c) for c in cs])), "the layout is accepted although a column breaks a convention",
                        path=path_of(st))
        self.fd = ip.loc(fd)

    def done(self):
        loc = getattr(self, "fd", ("?", 0))
        self.ob(loc, any(g for _, _, g in self.full), "no loop examines every column of the body area")


class Volume(Quiet):
    """CheckVolume: parcels against columns first, then the number of cells against the initial one"""

    def __init__(self):
        super().__init__()
        self.recs, self.colsok, self.sums = [], {}, {}
        self.copies = []

    def each(self, ip, loop, head, back):
        f = back.facts
        loc = ip.loc(loop.s)
        seg = [e for e in self.seg if e.kind in TOUCH]
        rs = [(q, r) for q in cover.nest(loop) for r in cover.ranges(q)]
        n = ip.model.gsize()
        nrec = back.store[("sim",)].f["body_soil_pos_"].size[0]
        rec = [r.hv for q, r in rs if r.lo == ZERO and f.norm(r.hi - nrec) == ZERO and not cover.early(q)]
        ws = [e for e in seg if e.kind == "w" and e.tag == "bsoil" and e.d.get("root") != ("sim",)]
        if ws:
            self.parcels(ip, loop, back, ws, rec)
            return
        got = {}
        for ax in (0, 1):
            for q, r in rs:
                if r.lo == ZERO and f.norm(r.hi - f.norm(n[ax])) == ZERO:
                    got.setdefault(ax, (r.hv, q))
        if len(got) < 2:
            return
        i, j = f.norm(got[0][0]), f.norm(got[1][0])
        t, b, s = colvals(ip, back, i, j)
        # what remains of every column after taking its parcels away
        for r, v in list(back.store.items()):
            if isinstance(v, Sym) and v.tag == "bsoil" and r != ("sim",) and v.ep[""] != "0":
                if v not in self.copies:
                    self.copies.append(v)
                L_ = self.left(ip, f, v, i, j)
                self.colsok.setdefault(id(loop), (loop, []))[1].append(all(within(f, L_[k + 1] - L_[k]) for k in (0, 2)))
        for d in loop.numeric():
            if d[0] != "s":
                continue
            x, y = loop.getq(head, d), loop.getq(back, d)
            if not isinstance(x, Poly) or not isinstance(y, Poly) or any(f.norm(x - r.hv) == ZERO for _, r in rs):
                continue
            self.sums.setdefault((d, id(loop)), (loop, got, loc, []))[3].append((back, f.norm(y - x), t, s))

    def left(self, ip, f, v, i, j):
        return [f.norm(A(ip.cell(v, (K(k), i, j), "", ("float",), ht=False))) for k in range(4)]

    def broken(self, ip, st):
        """the state knows a column that disagrees with its parcels"""
        for v in self.copies:
            for i, j in columns(ip, st):
                L_ = self.left(ip, st.facts, v, i, j)
                if beyond(st.facts, [L_[1] - L_[0], L_[3] - L_[2]]):
                    return True
        return False

    def entire(self, ip, loop):
        """the nest goes over the whole grid, or is left because a column disagrees"""
        f = loop.last[-1][1].facts
        n = ip.model.gsize()
        ax = set()
        for q in cover.nest(loop):
            for r in cover.ranges(q):
                for k in (0, 1):
                    if r.lo == ZERO and r.hi == f.norm(n[k]):
                        ax.add(k)
            for _, _, _, ex in q.last:
                for x, sig, why in ex:
                    if why == "break" and not x.facts.dead and not self.broken(ip, x):
                        return False
        return len(ax) == 2

    def parcels(self, ip, loop, b, ws, rec):
        f = b.facts
        loc = ws[0].loc
        v = b.store.get(ws[0].d["root"])
        self.recs.append((loc, bool(rec), ws[0].d["root"]))
        if not self.ob(loc, bool(rec), "not every parcel is compared with its column"):
            return
        rs = simsym(b, "body_soil_pos_")
        k = rec[0]
        from .soil import peek
        m = {}
        for q in ("ind", "ii", "jj", "h_soil"):
            m[q] = [x for _, x in peek(ip, b, "body_soil_pos_", (k,), q)]
        tot = ZERO
        for e in ws:
            c = e.key[0].cval()
            ok = c is not None and any(f.norm(K((c // 2) * 2) - f.norm(x)) == ZERO for x in m["ind"]) and \
                any(f.norm(e.key[1] - x) == ZERO for x in m["ii"]) and any(f.norm(e.key[2] - x) == ZERO for x in m["jj"])
            self.ob(e.loc, ok, "a parcel is compared with another column than its own", key=e.key)
            if c is not None:
                tot = tot + (e.new - e.old).scale(1 if c % 2 else -1)
        self.ob(loc, any(f.norm(tot + x) == ZERO for x in m["h_soil"]), "a parcel is not taken from its column exactly once", amount=f.norm(tot))

    def exit(self, ip, st, sig, fd):
        d = self.result(ip, st, sig, fd)
        f = st.facts
        loc = self.fd = ip.loc(fd)
        if d is None:
            return
        # a column that disagrees with its parcels
        bad = self.broken(ip, st)
        tot = self.total(ip, st)
        init = A(atom("par", "arg_" + [p["n"] for p in fd["params"] if p["t"] in ("int", "const int")][0], isint=True))
        if bad:
            self.ob(loc, d is False, "the volume is accepted although a column disagrees with its parcels", path=path_of(st))
            return
        if not self.ob(loc, tot is not None, "the number of soil cells of the whole grid is not established before the result", path=path_of(st)):
            return
        if d:
            self.ob(loc, holds(f, eq(tot - init)), "the volume is accepted although the number of soil cells may differ from the initial one", path=path_of(st), total=f.norm(tot))
            good = [q for q, g in self.colsok.values() if all(g)]
            self.ob(loc, any(self.entire(ip, q) for q in good), "the volume is accepted without comparing every column with its parcels", path=path_of(st))
        else:
            self.ob(loc, holds(f, ne(tot - init)), "the volume is rejected although it is consistent", path=path_of(st))

    def total(self, ip, st):
        """sum of the counters that have counted the ground and the soil on both walls once, over the whole grid"""
        parts, tot = [], ZERO
        cz = C
        rd = lambda p, f: A(atom("app", "round", (f.norm(p),)))
        for (d, _), (loop, got, loc, bs) in self.sums.items():
            kinds = None
            for b, delta, t, s in bs:
                f = b.facts
                R = lambda p: ip.mathv(b, "round", f.norm(div(f.norm(p), C)))
                g, s0, s2 = R(t), R(s[1] - s[0]), R(s[3] - s[2])
                here = set()
                for k in (("g",), ("s0",), ("s2",), ("s0", "s2"), ("g", "s0", "s2"), ("g", "s0"), ("g", "s2")):
                    e = sum(({"g": g, "s0": s0, "s2": s2}[q] for q in k), ZERO)
                    if f.norm(delta - e) == ZERO or holds(f, eq(delta - e)):
                        here.add(k)
                kinds = here if kinds is None else kinds & here
            outer = got[0][1] if len(cover.nest(got[0][1])) < len(cover.nest(got[1][1])) else got[1][1]
            if not kinds:
                continue
            if any(cover.early(q[1]) for q in got.values()):
                continue
            z = outer.getq(outer.entry, d) if d in outer.numeric() else None
            if d not in outer.atoms:
                continue
            if not isinstance(z, Poly):
                continue
            parts.append((kinds, outer.headval(d, None), z))
        # choose one meaning per counter so that the whole is counted once
        import itertools
        for pick in itertools.product(*[sorted(k) for k, _, _ in parts]):
            if sorted(q for k in pick for q in k) == ["g", "s0", "s2"]:
                return sum(((hv - z) for (_, hv, z) in parts), ZERO)
        return None


def valid_jobs():
    from . import run
    return [run.interp_job("CheckSoil", [Layout], model=VModel), run.interp_job("CheckVolume", [Volume], model=VModel)]
