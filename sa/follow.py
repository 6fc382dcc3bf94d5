"""Parcels of soil follow the wall they rest on: the position recorded with a new
parcel, and the column and wall a parcel is relocated to."""
from . import cover, logic as L
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, BIG, atom
from .logic import ge, gt, eq, ne, Not, And, Or, Bx, T, F
from .model import Model, NS, PURE, CXY, TOLP
from .values import *
from .interp import mk
from .soil import Obl, holds, path_of, peek, field_lv
from fractions import Fraction as Fr

NOFRAME = {k: v for k, v in PURE.items() if not k.endswith("::CalcBodyFramePos")}


def rot(k, q, v):
    return A(atom("app", "CalcRotationQuaternion.%d" % k, tuple(q) + tuple(v)))


class Rigid(Obl):
    """a new parcel is recorded at the top of its own wall, in its own column, in the body frame"""

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind != "push" or "x_b" not in e.d["val"]:
                continue
            f, m = st.facts, ip.model
            v = e.d["val"]
            i, j = f.norm(v["ii"]), f.norm(v["jj"])
            ind = f.norm(v["ind"]).cval()
            ok, why2 = True, ""
            for k, n in enumerate(("x_b", "y_b", "z_b")):
                at = f.norm(v[n]).as_atom()
                if at is None or at.name != "CalcRotationQuaternion.%d" % k:
                    ok, why2 = False, "component %s is not the rotated offset of the cell" % n
                    break
                b = m.bodyval(NS + "Body")
                q, p = b.f["ori_"].items, b.f["pos_"].items
                a = [f.norm(x) for x in at.args]
                if not all(holds(f, eq(x - y)) for x, y in zip(a[:4], (q[0], -q[1], -q[2], -q[3]))):
                    ok, why2 = False, "not rotated by the inverse of the body orientation"
                    break
                g = m.grid()
                for c, (ax, ix) in enumerate((("x", i), ("y", j))):
                    w = ip.symget(st.copy(), LV(("gridv",)), 0, (ix,), "", {"l": 0}) if False else None
                    at2 = (a[4 + c] + p[c]).as_atom()
                    if at2 is None or at2.kind != "cell" or not at2.name.startswith("vect_%s@" % ax) or not holds(f, eq(f.norm(at2.args[0]) - ix)):
                        ok, why2 = False, "the %s of the position is not that of the column" % ax
                if not ok:
                    break
                if ind is None:
                    ok, why2 = False, "the wall of the parcel is not known"
                    break
                top = peek(ip, st, "body_", (K(ind + 1), i, j))
                if not all(holds(s.facts, eq(s.facts.norm(a[6] + p[2]) - s.facts.norm(t))) for s, t in top):
                    ok, why2 = False, "the height of the position is not the top of the wall"
                    break
            self.ob(e.loc, ok, "a new parcel is recorded at a position that is not the top of its own wall column", reason=why2,
                    parcel={k: str(x)[:200] for k, x in v.items()}, path=path_of(st))


class Follow(Obl):
    """UpdateBodySoil: every parcel keeps its position in the body frame and goes to the
    nominal column or one of its neighbours, on the wall within a cell height or else the closest"""

    def __init__(self, shard=(0, 1)):
        super().__init__()
        self.shard = shard
        self.its, self.fb, self.tabs, self.gr = [], [], {}, []

    def parcel(self, st, v):
        at = st.facts.norm(v).as_atom()
        return at.args[0] if at is not None and at.kind == "cell" and at.name.startswith("recs.") else None

    def nominal(self, ip, n):
        m = ip.model
        recs = m.simout().f["body_soil_pos_"]
        off = [A(ip.cell(recs, (n,), k, ("float",))) for k in ("x_b", "y_b", "z_b")]
        p, q = m.vec("pos", 3).items, m.vec("ori", 4).items
        w = [p[k] + rot(k, q, off) for k in range(3)]
        return (mk("round", w[0] * A_inv(CXY) + m.hl("x")), mk("round", w[1] * A_inv(CXY) + m.hl("y")), w[2], off)

    def near(self, f, x, n):
        return holds(f, And(ge(x - n + ONE), ge(n + ONE - x)))

    def close(self, ip, st, i, j, top, z):
        """the wall whose top has the given index is within a cell height of z, and present"""
        out = []
        for s, t in peek(ip, st, "body_", (K(top), i, j)):
            for s2, b in peek(ip, s, "body_", (K(top - 1), i, j)):
                f = s2.facts
                out.append((s2, f.norm(b), f.norm(t)))
        return out

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind in ("w", "rw") and e.d.get("tag") == "terrain" and not st.facts.dead and st.facts.norm(e.new - e.old) != ZERO:
                self.gr.append((e.loc, st))
            if e.kind != "push" or "x_b" not in e.d["val"]:
                continue
            v = e.d["val"]
            f = st.facts
            n = [self.parcel(st, v[k]) for k in ("x_b", "y_b", "z_b")]
            if not self.ob(e.loc, n[0] is not None and n[0] == n[1] == n[2] and all(
                    f.norm(v[k]).as_atom().name.split("@")[0] == "recs." + k for k in ("x_b", "y_b", "z_b")),
                    "a relocated parcel does not keep its position in the body frame",
                    parcel={k: str(x)[:200] for k, x in v.items()}):
                continue
            ni, nj, z, off = self.nominal(ip, n[0])
            i, j, ind = (f.norm(v[k]) for k in ("ii", "jj", "ind"))
            h = f.norm(v["h_soil"])
            if self.near(f, i, ni) and self.near(f, j, nj) and ind.cval() is not None:
                for s, b, t in self.close(ip, st, i, j, ind.cval() + 1, z):
                    g = s.facts
                    self.ob(e.loc, holds(g, Or(ne(b), ne(t))), "soil is relocated to a column without the wall it is put on", path=path_of(s))
                    d = mk("abs", g.norm(z - t))
                    self.ob(e.loc, holds(g, gt(C + TOLP - d)), "soil is relocated to a wall that is not within a cell height although a closer one was not excluded",
                            distance=d, path=path_of(s))
                continue
            # the fallback: remembered by the loop over the neighbours
            rs = []
            for x in (i, j, ind):
                hit = []
                for r, val in st.store.items():
                    if isinstance(val, Poly) and r not in (("sim",), ("body",)):
                        d = f.norm(x - val).cval()
                        if d is not None and abs(d) <= 4 and (val.as_atom() is not None or x is ind):
                            hit.append((r, d))
                rs.append(hit)
            self.fb.append((e.loc, rs, path_of(st), ind.cval()))

    def iteration(self, ip, loop, head, back):
        r0 = {r for r in head.store if isinstance(head.store[r], Poly) or repr(head.store[r]) == "UNINIT"}
        ad = None
        for r in cover.ranges(loop):
            if r.lo != ZERO or r.hi.cval() != 9:
                continue
            for root, v in loop.entry.store.items():
                rows = v.items if isinstance(v, VList) else None
                if rows is not None and len(rows) == 9 and all(isinstance(x, VList) and len(x.items) == 2 for x in rows):
                    ad = (root, rows, r)
        self.its.append((ip, loop, head, back, ad, ip.loc(loop.s)))

    def done(self):
        nbr = [x for x in self.its if x[4] is not None]
        # distances kept by the loop: real-valued locals that it changes
        track = set()
        for ip, loop, head, back, tab, loc in nbr:
            for q, v in back.store.items():
                h = head.store.get(q)
                if isinstance(v, Poly) and isinstance(h, Poly) and h != v and not isint(v):
                    track.add(q)
        good = {q: 0 for q in track}
        self.used = set()
        for x in nbr[self.shard[0]::self.shard[1]]:
            ip, loop, head, back, (root, rows, r), loc = x
            f = back.facts
            n = self.cur(back, loop)
            if n is None:
                self.fail(loc, "the neighbours are examined without a parcel")
                continue
            ni, nj, z, off = self.nominal(ip, n)
            d = [ip.load(back.copy(), LV(root).i(r.hv).i(K(c)), {"l": 0})[0][1] for c in (0, 1)]
            i, j = f.norm(ni + d[0]), f.norm(nj + d[1])
            for top in (1, 3):
                for s, b, t in self.close(ip, back, i, j, top, z):
                    g = s.facts
                    if g.dead:
                        continue
                    absent = And(eq(b), eq(t))
                    if g.prove(absent, 1):
                        self.n += 2
                        continue
                    dist = mk("abs", g.norm(z - g.norm(t)))
                    self.ob(loc, holds(g, Or(absent, ge(dist - C - TOLP))), "a wall within a cell height of the soil is passed over",
                            distance=dist, path=path_of(s))
                    tr = any(holds(g, Or(absent, ge(dist - g.norm(back.store[q])))) for q in sorted(track))
                    self.ob(loc, tr, "the closest wall among the neighbours is not remembered", distance=dist, path=path_of(s))
        if self.shard[0]:
            return
        for loc, rs, path, ind in self.fb:
            if not self.ob(loc, all(rs), "soil is relocated to a column that is not its nominal one or a neighbour", path=path):
                continue
            self.ob(loc, bool(nbr), "soil is relocated to a remembered column, but no loop examines the nine columns", path=path)
            best = None
            moved = {q for x in nbr for q, v in x[3].store.items() if x[2].store.get(q) != v}
            rs = [[c for c in h if c[0] in moved] for h in rs]
            if not self.ob(loc, all(rs), "soil is relocated to a column that is not its nominal one or a neighbour", path=path):
                continue
            for c0 in rs[0]:
                for c1 in rs[1]:
                    for c2 in rs[2]:
                        k = (c0[0], c1[0], c2[0], c0[1], c1[1], c2[1] % 2, ind)
                        bad = self.memo(k, nbr, (c0, c1, c2), track, ind)
                        if best is None or len(bad) < len(best):
                            best = bad
                        if not bad:
                            break
            self.ob(loc, not best, best[0][1] if best else "", **(best[0][2] if best else {}))

        self.ground(nbr)

    def ground(self, nbr):
        """soil goes to the ground only when a variable of the loop over the neighbours still has
        its first value, which it loses for good as soon as one column has a wall"""
        memo = {}
        for loc, st in self.gr:
            good = False
            for q, v in sorted(st.store.items(), key=lambda x: repr(x[0])):
                e0 = self.first(nbr, q)
                if e0 is None or not isinstance(v, (Poly, Bx)):
                    continue
                b = still(v, e0)
                if b is None or not holds(st.facts, b):
                    continue
                if q not in memo:
                    memo[q] = self.flag(nbr, q)
                if memo[q]:
                    good = True
                    break
            self.ob(loc, good, "carried soil is put on the ground although one of the nine columns may have a wall", path=path_of(st))

    def flags(self, nbr, f, d):
        """the variables that tell that no wall was met yet (looked for only when needed)"""
        if f.prove(ge(d), 1):
            return []
        if not hasattr(self, "_flags"):
            cand = {p for x in nbr for p, v in x[3].store.items() if x[2].store.get(p) != v and self.first(nbr, p) is not None}
            self._flags = [p for p in sorted(cand, key=repr) if self.flag(nbr, p)]
        return self._flags

    def first(self, nbr, q):
        """the value a variable has before the neighbours are examined, if it is always the same"""
        r = None
        for x in nbr:
            v = x[1].entry.store.get(q)
            if isinstance(v, Poly):
                v = x[1].entry.facts.norm(v)
                if v.cval() is None and v != A(BIG):
                    return None
            elif not (v is T or v is F):
                return None
            if r is not None and r != v:
                return None
            r = v
        return r

    def flag(self, nbr, q):
        others = {p for x in nbr for p, v in x[3].store.items() if p != q and x[2].store.get(p) != v and self.first(nbr, p) is not None}
        return any(self.keeps(nbr, (q,) + p) for p in [()] + [(p,) for p in sorted(others, key=repr)])

    def keeps(self, nbr, qs):
        """the variables qs leave their first values together, for good, and do so when a wall is met"""
        v0 = {p: self.first(nbr, p) for p in qs}
        for ip, loop, head, back, (root, rows, r), loc in nbr:
            n = self.cur(back, loop)
            if n is None:
                return False
            ni, nj, z, off = self.nominal(ip, n)
            f = back.facts
            d = [ip.load(back.copy(), LV(root).i(r.hv).i(K(c)), {"l": 0})[0][1] for c in (0, 1)]
            i, j = f.norm(ni + d[0]), f.norm(nj + d[1])
            for top in (1, 3):
                for s, b, t in self.close(ip, back, i, j, top, z):
                    for fresh0 in (True, False):
                        g = s.facts.copy()
                        for k in (1, 3):
                            for _, _, u in self.close(ip, back, i, j, k, z):
                                g.assume(gt(A(BIG) - mk("abs", g.norm(z - g.norm(u)))))
                        for p in qs:
                            x = head.store.get(p)
                            c = still(x, v0[p])
                            if c is None:
                                return False
                            g.assume(c if fresh0 else Not(c))
                            if not fresh0 and v0[p] == A(BIG):
                                g.assume(gt(A(BIG) - x))
                        if g.dead:
                            continue
                        gone = [left(back.store.get(p), v0[p]) for p in qs]
                        kept = [still(back.store.get(p), v0[p]) for p in qs]
                        if None in gone or None in kept:
                            return False
                        if g.prove(And(*gone), 1):
                            continue
                        absent = And(eq(b), eq(t))
                        if fresh0 and holds(g, And(absent, And(*kept))):
                            continue
                        if not holds(g, And(*gone)) and not (fresh0 and holds(g, And(*kept)) and holds(g, absent)):
                            return False
        return True

    def memo(self, k, nbr, cs, track, ind):
        m = self.__dict__.setdefault("_m", {})
        if k not in m:
            m[k] = self.remembered(nbr, cs, track, ind)
        return m[k]

    def remembered(self, nbr, cs, track, ind):
        """failures of: whenever the loop sets the remembered column, it is a neighbour with that wall, closer than the one before"""
        bad = []
        for ip, loop, head, back, (root, rows, r), l2 in nbr:
            if all(back.store.get(q) == head.store.get(q) for q, _ in cs):
                continue
            if len(bad) > 3:
                break
            n = self.cur(back, loop)
            if n is None:
                continue
            ni, nj, z, off = self.nominal(ip, n)
            f = back.facts
            vals = [back.store.get(q) for q, _ in cs]
            if not all(isinstance(x, Poly) for x in vals):
                bad.append((l2, "the remembered column is only partly set", {}))
                continue
            i, j, w = (f.norm(v + K(c[1])) for v, c in zip(vals, cs))
            w = w.cval()
            if w not in (0, 2):
                bad.append((l2, "the remembered wall is not known", {"wall": w}))
                continue
            if w != ind:
                continue
            if not (self.near(f, i, ni) and self.near(f, j, nj)):
                bad.append((l2, "the remembered column is not the nominal one or a neighbour", {"column": (i, j)}))
                continue
            for s, b, t in self.close(ip, back, i, j, w + 1, z):
                g = s.facts
                if g.dead:
                    continue
                if not holds(g, Or(ne(b), ne(t))):
                    bad.append((l2, "the remembered wall does not exist in that column", {"path": path_of(s)}))
                dist = mk("abs", g.norm(z - g.norm(t)))
                if not any(holds(g, eq(g.norm(back.store[q]) - dist)) and holds(g, Or(ge(head.store[q] - dist), *[still(head.store[p], self.first(nbr, p)) for p in self.flags(nbr, g, head.store[q] - dist)])) for q in sorted(track)):
                    bad.append((l2, "the remembered wall replaces a closer one, or its distance is not kept", {"distance": dist, "path": path_of(s)}))
        return bad

    def cur(self, back, loop):
        """index of the parcel that the enclosing loop is working on"""
        p = loop.parent
        while p is not None:
            for r in cover.ranges(p):
                if r.lo == ZERO:
                    return r.hv
            p = p.parent
        return None


def still(v, v0):
    """the value is the one before the loop"""
    if isinstance(v, Bx) and (v0 is T or v0 is F):
        return v if v0 is T else Not(v)
    return eq(v - v0) if isinstance(v, Poly) and isinstance(v0, Poly) else None


def left(v, v0):
    """the value is not, and cannot be taken for, the one before the loop"""
    c = still(v, v0)
    if c is not None and isinstance(v0, Poly) and v0 == A(BIG):
        return gt(v0 - v)
    return None if c is None else Not(c)


def isint(p):
    from .poly import is_int
    return is_int(p)


def A_inv(p):
    a = p.as_atom()
    return Poly({((a.id, -1),): Fr(1)})


def follow_jobs():
    from . import run, soil
    out = []
    for fn in ("RelaxTerrain", "RelaxBodySoil", "MoveIntersectingBodySoil"):
        j = run.interp_job(fn, [Rigid], pure=NOFRAME, **soil.SOIL_JOBS[fn])
        j.weight = {"MoveIntersectingBodySoil": 60, "RelaxBodySoil": 50}.get(fn, 5)
        out.append(j)
    out.append(run.interp_job("UpdateBodySoil", [Follow], **soil.SOIL_JOBS["UpdateBodySoil"]))
    return out
