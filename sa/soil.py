"""Obligations on the functions that move soil (C01, C02, C04-C07, ...).

Every listener receives, from the abstract interpreter, all paths between two
program points where the state is generalised (loop entries, loop back edges,
function exits), with the path condition and the soil heights written on it."""
from . import logic as L
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, TOL, atom, is_ht
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import Listener, NS, TOLP
from .values import *
from fractions import Fraction as Fr

WALLS = {0: 2, 2: 0}


def holds(f, goal):
    """prove, with more case splitting when the usual effort fails"""
    return f.prove(goal, 1) or f.refute(goal) or f.prove(goal)


class Obl(Listener):
    """listener that records obligations and the ones that fail"""

    def __init__(self):
        self.viol = {}
        self.n = 0
        self.sites = set()

    def fail(self, loc, msg, **detail):
        self.viol.setdefault((loc[0], loc[1], msg), {k: str(v)[:1500] for k, v in detail.items()})

    def ob(self, loc, ok, msg, **detail):
        self.n += 1
        self.sites.add(tuple(loc))
        if not ok:
            self.fail(loc, msg, **detail)
        return ok


class path_of:
    """the branch conditions of a path, for the report (formatted only when shown)"""

    def __init__(self, st, limit=14):
        self.bs = list(st.facts.ineq)[-limit:]

    def __str__(self):
        return " && ".join(str(b)[:160] for b in self.bs)


def field_lv(field):
    return LV(("sim",), (("f", field),))


def peek(ip, st, field, key, sub=""):
    """[(state, value)] of one element in a state (aliases are split)"""
    l = field_lv(field)
    return ip.symget(st.copy(), l, 1, tuple(key), sub, {"l": 0})


def colkey(ev):
    c = ev.key[0].cval()
    return None if c is None else ((c // 2) * 2, ev.key[1], ev.key[2])


def reckey(ip, st, key):
    v = []
    for f in ("ind", "ii", "jj"):
        r = peek(ip, st, "body_soil_pos_", key, f)
        if len(r) != 1 or not isinstance(r[0][1], Poly):
            return None
        v.append(st.facts.norm(r[0][1]))
    return tuple(v)


# ---------------------------------------------------------------- C01
class Conserve(Obl):
    def exit(self, ip, st, sig, fd):
        g = st.facts.norm(st.ghost["GT"] + st.ghost["GS"])
        self.ob(ip.loc(fd), holds(st.facts, eq(g)),
                "ground plus body soil changes across %s" % fd["name"].split("::")[-1], change=g, path=path_of(st))

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind in ("w", "rw") and e.d.get("tag") in ("terrain", "bsoil"):
                self.sites.add(tuple(e.loc))


# ---------------------------------------------------------------- C02
class Ledger(Obl):
    def __init__(self, stale=False):
        super().__init__()
        self.stale = stale

    def exit(self, ip, st, sig, fd):
        rs = st.store[("sim",)].f["body_soil_pos_"]
        d = st.facts.norm(rs.sum - A(atom("par", "RS0")) - st.ghost["GS"])
        self.ob(ip.loc(fd), holds(st.facts, eq(d)),
                "%s changes the tracked parcels and the soil on the body by different amounts" % fd["name"].split("::")[-1],
                difference=d, path=path_of(st))

    def copied(self, v):
        """value taken unchanged from one element of another record vector"""
        src = None
        for f in ("ind", "ii", "jj", "h_soil"):
            p = v.get(f)
            if not isinstance(p, Poly):
                return False
            at = p.as_atom()
            if at is None or at.kind not in ("cell", "inst"):
                if f == "ind" and p.cval() is not None:
                    continue
                return False
            nm, _, rest = at.name.partition(".%s" % f)
            k = (nm, at.args)
            if src is None:
                src = k
            elif src != k:
                return False
        return src is not None and src[0] != "recs"

    def cut(self, ip, st, seg, why, node):
        tot, locs = {}, {}
        recs = {}
        zero_only = True

        def add(k, d, loc):
            k = tuple(st.facts.norm(x) if isinstance(x, Poly) else K(x) for x in k)
            tot[k] = tot.get(k, ZERO) + d
            locs[k] = loc
        for e in seg:
            if e.kind == "w" and e.tag == "bsoil":
                k = colkey(e)
                c = e.key[0].cval()
                add(k, (e.new - e.old).scale(1 if c % 2 else -1), e.loc)
                if e.new != ZERO:
                    zero_only = False
            elif e.kind == "w" and e.tag == "recs" and e.name == "recs":
                recs.setdefault(e.key, {}).setdefault(e.field, []).append(e)
                if e.field == "h_soil":
                    self.ob(e.loc, holds(st.facts, ge(e.new)), "a parcel may become negative", value=e.new, path=path_of(st))
            elif e.kind == "push" and e.name != "gen" and isinstance(e.val.get("h_soil"), Poly):
                zero_only = False
                if self.copied(e.val):
                    continue
                h = e.val["h_soil"]
                self.ob(e.loc, holds(st.facts, ge(h)), "a registered parcel may be negative", value=h, path=path_of(st))
                add((e.val["ind"], e.val["ii"], e.val["jj"]), -h, e.loc)
        for key, fs in recs.items():
            zero_only = False
            old, new = [], []
            for f in ("ind", "ii", "jj", "h_soil"):
                if f in fs:
                    old.append(fs[f][0].old)
                    new.append(fs[f][-1].new)
                else:
                    r = peek(ip, st, "body_soil_pos_", key, f)
                    v = r[0][1] if len(r) == 1 else None
                    if v is None:
                        vs = {repr(st.facts.norm(x)): x for _, x in r}
                        v = list(vs.values())[0]
                    old.append(v)
                    new.append(v)
            loc = next(iter(fs.values()))[-1].loc
            add(old[:3], old[3], loc)
            add(new[:3], -new[3], loc)
        if self.stale and zero_only:
            return
        ks = list(tot)
        for k in ks:
            d = st.facts.norm(tot[k])
            self.ob(locs[k], d == ZERO or holds(st.facts, eq(d)),
                    "soil on a wall and its tracked parcels change by different amounts", column=k, difference=d,
                    path=path_of(st))


# ---------------------------------------------------------------- C06
class Multiples(Obl):
    wants_write = True
    FIELDS = {"terrain": ("",), "body": ("",), "bsoil": ("",), "recs": ("h_soil",)}

    def write(self, ip, st, e):
        if e.kind == "w":
            if e.field in self.FIELDS.get(e.tag, ()):
                self.val(st, e.loc, e.new, e.tag)
        elif e.kind == "push":
            h = e.val.get("h_soil")
            if isinstance(h, Poly):
                self.val(st, e.loc, h, "parcel")

    def val(self, st, loc, v, what):
        v = st.facts.norm(v)
        self.ob(loc, is_ht(v), "a %s height is written that need not be a whole multiple of the cell height" % what, value=v)


# ---------------------------------------------------------------- C07
class Resting(Obl):
    def cut(self, ip, st, seg, why, node):
        last = {}
        for e in seg:
            if e.kind == "w" and e.tag == "bsoil":
                last[colkey(e)] = e
        for (slot, i, j), e in last.items():
            for s, b in peek(ip, st, "body_soil_", (K(slot), i, j)):
                for s2, t in peek(ip, s, "body_soil_", (K(slot + 1), i, j)):
                    self.column(ip, s2, e, slot, i, j, b, t)

    def column(self, ip, st, e, slot, i, j, b, t):
        w0 = peek(ip, st, "body_", (K(slot), i, j))[0][1]
        w1 = peek(ip, st, "body_", (K(slot + 1), i, j))[0][1]
        f = st.facts
        b, t, w0, w1 = (f.norm(x) for x in (b, t, w0, w1))
        if b == ZERO and t == ZERO:
            self.ob(e.loc, True, "")
            return
        if not self.ob(e.loc, holds(f, ge(t - b)), "soil on a wall may end with its top below its bottom",
                       top=t, bottom=b, path=path_of(st)):
            return
        goal = Or(And(eq(b), eq(t)), And(eq(b - w1), Or(ne(w0), ne(w1), eq(t - b))))
        ok = holds(f, goal)
        self.ob(e.loc, ok, "soil on a wall does not rest on the top of that wall",
                slot=slot, bottom=b, top=t, wall=(w0, w1), path=path_of(st))


SOIL_JOBS = {
    "RelaxTerrain": dict(relax=True),
    "RelaxBodySoil": dict(relax=True),
    "MoveIntersectingBodySoil": {},
    "MoveIntersectingBody": {},
    "UpdateBodySoil": dict(stale=True),
}


# ---------------------------------------------------------------- C04
def columns(st, seg):
    """net change of every ground and wall soil column written in a segment:
    {('T',i,j): (old,new,ev)}, {(slot,i,j): {part: (old,new,ev)}}"""
    ter, bs = {}, {}
    for e in seg:
        if e.kind != "w":
            continue
        if e.tag == "terrain":
            k = tuple(st.facts.norm(x) for x in e.key)
            o = ter.get(k)
            ter[k] = (o[0] if o else e.old, e.new, e)
        elif e.tag == "bsoil":
            c = e.key[0].cval()
            k = ((c // 2) * 2,) + tuple(st.facts.norm(x) for x in e.key[1:])
            d = bs.setdefault(k, {})
            o = d.get(c % 2)
            d[c % 2] = (o[0] if o else e.old, e.new, e)
    return ter, bs


class Walls(Obl):
    """soil that is placed somewhere ends below the wall above it"""

    def __init__(self, ground=True):
        super().__init__()
        self.ground = ground      # soil falling off a wall may fill the gap below it; the next phase clears it

    def absent(self, w):
        return And(eq(w[0]), eq(w[1]))

    def wall(self, ip, st, slot, i, j):
        return tuple(st.facts.norm(peek(ip, st, "body_", (K(slot + p), i, j))[0][1]) for p in (0, 1))

    def cut(self, ip, st, seg, why, node):
        ter, bs = columns(st, seg)
        f = st.facts
        for (i, j), (o, n, e) in ter.items() if self.ground else ():
            o, n = f.norm(o), f.norm(n)
            for slot in (0, 2):
                w = self.wall(ip, st, slot, i, j)
                ok = holds(f, Or(ge(o - n), self.absent(w), ge(w[0] - n)))
                self.ob(e.loc, ok, "ground may be raised above the bottom of a wall of that column", slot=slot,
                        old=o, new=n, wall=w, path=path_of(st))
        for (slot, i, j), d in bs.items():
            if 1 not in d:
                continue
            o, n, e = d[1]
            o, n = f.norm(o), f.norm(n)
            own, oth = self.wall(ip, st, slot, i, j), self.wall(ip, st, WALLS[slot], i, j)
            b = peek(ip, st, "body_soil_", (K(slot), i, j))
            b = f.norm(b[0][1])
            goal = Or(ge(o - n), self.absent(oth), ge(own[0] - oth[0]), ge(oth[0] - n), eq(b - n))
            ok = holds(f, goal)
            self.ob(e.loc, ok, "soil on the lower wall may be raised above the bottom of the upper wall", slot=slot,
                    old=o, new=n, wall=own, other=oth, path=path_of(st))


from . import cover


def comps(val):
    """the components of a pushed candidate: [(field name, Poly)]"""
    if isinstance(val, VList):
        return [(str(i), x) for i, x in enumerate(val.items)]
    if isinstance(val, Struct):
        return list(val.f.items())
    return []


def area(name):
    return [(A(atom("par", "%s_%d0" % (name, a))), A(atom("par", "%s_%d1" % (name, a)))) for a in (0, 1)]


def area_loops(ip, loop, st, field):
    """(hv_i, hv_j) when the innermost two loops visit exactly the columns of an active area"""
    ns = cover.nest(loop)
    got = {}
    want = [None, None]
    sim = st.store.get(("sim",))
    for l in ns:
        for r in cover.ranges(l):
            for a in (0, 1):
                v = sim.f[field].items[a].items
                if (r.lo == st.facts.norm(v[0]) or repr(r.lo) == repr(v[0])) and (r.hi == st.facts.norm(v[1]) or repr(r.hi) == repr(v[1])):
                    if not cover.early(l):
                        got[a] = (r.hv, l)
    if len(got) == 2 and got[0][1] is not got[1][1] and loop in (got[0][1], got[1][1]):
        return got[0][0], got[1][0]
    return None


class GroundCleared(Obl):
    """every body column is searched for ground inside either wall and each
    one found ends at or below that wall"""

    def __init__(self):
        super().__init__()
        self.searched = self.cleared = None
        self.pos = set()
        self.needpush = False
        self.late = []

    def iteration(self, ip, loop, head, back):
        ij = area_loops(ip, loop, head, "body_area_")
        if ij is not None:
            self.search(ip, loop, head, back, ij)
            return
        for r in cover.ranges(loop):
            for root, path, sym in cover.localsyms(loop.entry, width=3):
                if r.lo == ZERO and r.hi == loop.entry.facts.norm(sym.size[0]):
                    self.resolve(ip, loop, head, back, root, path, r.hv)

    def search(self, ip, loop, head, back, ij):
        i, j = ij
        f = back.facts
        self.searched = ip.loc(loop.s)
        pushed = [comps(e.val) for e in back.seg[len(head.seg):] if e.kind == "vpush"]
        for slot in (0, 2):
            t = f.norm(peek(ip, back, "terrain_", (i, j))[0][1])
            w = [f.norm(peek(ip, back, "body_", (K(slot + p), i, j))[0][1]) for p in (0, 1)]
            hit = False
            for c in pushed:
                m = {}
                for n, x in c:
                    if not isinstance(x, Poly):
                        continue
                    x = f.norm(x)
                    if x == f.norm(i):
                        m["i"] = n
                    elif x == f.norm(j):
                        m["j"] = n
                    elif x == K(slot):
                        m["s"] = n
                if len(m) == 3:
                    hit = True
                    self.pos.add((m["s"], m["i"], m["j"]))
            if hit:
                self.needpush = True
                self.ob(ip.loc(loop.s), True, "")
                continue
            ok = holds(f, Or(And(eq(w[0]), eq(w[1])), ge(w[0] + TOLP - t)))
            self.ob(ip.loc(loop.s), ok, "ground inside a wall may be missed by the search", slot=slot, ground=t, wall=w,
                    path=path_of(back))

    def resolve(self, ip, loop, head, back, root, path, hv):
        if cover.early(loop):
            return
        self.late.append((ip, loop, back, root, path, hv))

    def done(self):
        if self.searched is None:
            self.fail(("intersecting_cells.cpp", 0), "no loop visits every column of the body area")
            return
        if not self.needpush:
            return
        if len(self.pos) != 1:
            self.fail(self.searched, "candidates are recorded in different layouts")
            return
        s, i, j = next(iter(self.pos))
        for ip, loop, back, root, path, hv in self.late:
            l = LV(root, path)

            def get(st, f):
                return ip.symget(st.copy(), l, len(path), (hv,), f, {"l": 0})
            for s1, a in get(back, s):
                for s2, b in get(s1, i):
                    for s3, c in get(s2, j):
                        a2 = s3.facts.norm(a).cval()
                        for k in ((a2,) if a2 is not None else (0, 2)):
                            s4 = s3.copy()
                            s4.facts.assume(eq(a - k))
                            if s4.facts.dead:
                                continue
                            f = s4.facts
                            t = f.norm(peek(ip, s4, "terrain_", (b, c))[0][1])
                            w = f.norm(peek(ip, s4, "body_", (K(k), b, c))[0][1])
                            self.ob(ip.loc(loop.s), holds(f, ge(w + TOLP - t)), "ground found inside a wall may stay there",
                                    slot=k, ground=t, wall=w, path=path_of(s4))
            self.cleared = ip.loc(loop.s)
        if self.cleared is None:
            self.fail(self.searched, "no loop handles every recorded column")


# ---------------------------------------------------------------- C05
def repose():
    """the height difference the repose angle allows between adjacent columns"""
    from .poly import CELLXY
    return A(CELLXY) * A(atom("app", "tan", (A(atom("par", "repose_angle_")),)))


class Slope(Obl):
    def moves(self, ip, st, seg):
        """[(key, delta, ev)] of one segment"""
        ter, bs = columns(st, seg)
        out = []
        f = st.facts
        for k, (o, n, e) in ter.items():
            d = f.norm(n - o)
            if d != ZERO:
                out.append((("T",) + k, d, e, ter[k], None))
        for k, d in bs.items():
            s = ZERO
            e = None
            for p, (o, n, e) in d.items():
                s = s + (n - o).scale(1 if p else -1)
            s = f.norm(s)
            if s != ZERO:
                out.append((k, s, e, None, d))
        return out

    def tops(self, ip, st, mv):
        """[(state, old top, new top)] (case split on the column being empty before / after)"""
        key, d, e, t, parts = mv
        f = st.facts
        if t is not None:
            return [(st, t[0], t[1])]
        slot, i, j = key
        old, new = [], []
        for p in (0, 1):
            if p in parts:
                old.append(parts[p][0])
                new.append(parts[p][1])
            else:
                v = peek(ip, st, "body_soil_", (K(slot + p), i, j))[0][1]
                old.append(v)
                new.append(v)
        w = peek(ip, st, "body_", (K(slot + 1), i, j))[0][1]
        out = []
        for oc in (True, False):
            for nc in (True, False):
                s = st.copy()
                g = s.facts
                for c, (b, t1) in ((oc, old), (nc, new)):
                    z = And(eq(b), eq(t1))
                    g.assume(z if c else Not(z))
                if g.dead:
                    continue
                ot = w if oc else old[1]
                nt = w if nc else new[1]
                if nc and not oc:
                    nt = old[0]       # everything above the bottom is gone
                out.append((s, g.norm(ot), g.norm(nt)))
        return out

    def cut(self, ip, st, seg, why, node):
        mv = self.moves(ip, st, seg)
        if not mv:
            return
        f = st.facts
        loc = mv[-1][2].loc
        if len(mv) != 2:
            if holds(f, And(*[eq(m[1]) for m in mv])):
                return
            self.ob(loc, False, "one avalanche changes %d columns" % len(mv), columns=[m[0] for m in mv], path=path_of(st))
            return
        a, b = mv
        if holds(f, ge(-a[1])) and holds(f, ge(b[1])):
            pass
        elif holds(f, ge(a[1])) and holds(f, ge(-b[1])):
            a, b = b, a
        else:
            self.ob(loc, False, "an avalanche may move a negative amount", amounts=(a[1], b[1]), path=path_of(st))
            return
        D = repose()
        from .poly import CELLZ
        c = A(CELLZ)
        exhausted = [e for e in seg if e.kind == "w" and e.tag == "recs" and e.field == "h_soil"]
        for s1, so, sn in self.tops(ip, st, a):
            for s2, do, dn in self.tops(ip, s1, b):
                g = s2.facts
                if g.dead:
                    continue
                so2, sn2, do2, dn2 = (g.norm(x) for x in (so, sn, do, dn))
                self.ob(loc, holds(g, Or(gt(so2 - do2 - D), eq(b[1]))), "soil may move although the slope is not above the repose angle",
                        source=so2, destination=do2, path=path_of(s2))
                self.ob(loc, holds(g, Or(ge(sn2 - dn2 - D + c.scale(Fr(3, 2))), eq(b[1]))), "an avalanche may move more soil than the repose angle asks for",
                        source=sn2, destination=dn2, path=path_of(s2))
                lim = [ge(D + c.scale(Fr(1, 2)) - (sn2 - dn2))]
                i, j = b[0][1:]
                for slot in (0, 2):
                    wb = g.norm(peek(ip, s2, "body_", (K(slot), i, j))[0][1])
                    lim.append(And(eq(dn2 - wb), Or(ne(wb), ne(peek(ip, s2, "body_", (K(slot + 1), i, j))[0][1]))))
                for e in exhausted[-1:]:
                    lim.append(eq(e.new))
                self.ob(loc, holds(g, Or(*lim)), "an avalanche may stop although the slope stays above the repose angle",
                        source=sn2, destination=dn2, path=path_of(s2))


# ---------------------------------------------------------------- C10 / C23 / C24: the relaxation loops
def adjacency(ip, loop, st):
    """source and neighbour examined by one iteration of a loop over a table of
    directions: [(state, kind, ii, jj, ind, ic, jc, rows)]"""
    for r in cover.ranges(loop):
        if r.lo != ZERO or r.hi.cval() is None:
            continue
        n = r.hi.cval()
        for root, v in loop.entry.store.items():
            rows = v.items if isinstance(v, VList) else v.rows if isinstance(v, Perm) else None
            if rows is None or len(rows) != n or not all(isinstance(x, VList) and len(x.items) == 2 for x in rows):
                continue
            out = []
            d = []
            for c in (0, 1):
                x = ip.load(st.copy(), LV(root).i(r.hv).i(K(c)), {"l": 0})
                d.append(x[0][1])
            return rows, d, r
    return None


def source(ip, loop, st):
    """[(state, kind, ii, jj, ind)] : the column the enclosing loop works on"""
    p = loop.parent
    while p is not None:
        for r in cover.ranges(p):
            if r.lo != ZERO:
                continue
            sim = p.entry.store[("sim",)]
            rp = sim.f["body_soil_pos_"]
            if r.hi == p.entry.facts.norm(rp.size[0]):
                out = []
                l = field_lv("body_soil_pos_")
                for s1, a in ip.symget(st.copy(), l, 1, (r.hv,), "ind", {"l": 0}):
                    for s2, b in ip.symget(s1, l, 1, (r.hv,), "ii", {"l": 0}):
                        for s3, c in ip.symget(s2, l, 1, (r.hv,), "jj", {"l": 0}):
                            out.append((s3, "rec", b, c, a, r.hv))
                return out
            for root, path, sym in cover.localsyms(p.entry, width=2):
                if r.hi == p.entry.facts.norm(sym.size[0]):
                    out = []
                    l = LV(root, path)
                    fs = sorted(sym.fields())
                    for s1, a in ip.symget(st.copy(), l, len(path), (r.hv,), fs[0], {"l": 0}):
                        for s2, b in ip.symget(s1, l, len(path), (r.hv,), fs[1], {"l": 0}):
                            out.append((s2, "cell", a, b, None, r.hv))
                    return out
        p = p.parent
    return None


class Before:
    """heights of some columns before a segment; reading them may split the state"""

    @staticmethod
    def all(ip, st, seg, cols):
        res = [(st.copy(), {})]
        for i, j in cols:
            for field, n in (("terrain_", 1), ("body_", 4), ("body_soil_", 4)):
                for p in range(n):
                    nxt = []
                    for s, m in res:
                        key = (i, j) if field == "terrain_" else (K(p), i, j)
                        for s2, v in peek(ip, s, field, key):
                            if not s2.facts.dead:
                                nxt.append((s2, dict(m, **{repr((field, p, repr(i), repr(j))): v})))
                    res = nxt
        return [Before(s, seg, m) for s, m in res]

    def __init__(self, st, seg, vals):
        self.st, self.vals = st, vals
        self.ter, self.bs = columns(st, seg)

    def get(self, kind, i, j, p=0):
        f = self.st.facts
        a, b = f.norm(i), f.norm(j)
        if kind == "T":
            for (x, y), (o, n, e) in self.ter.items():
                if x == a and y == b:
                    return f.norm(o)
        elif kind == "S":
            for (s, x, y), d in self.bs.items():
                if s == (p // 2) * 2 and x == a and y == b and p % 2 in d:
                    return f.norm(d[p % 2][0])
        fld = {"T": "terrain_", "B": "body_", "S": "body_soil_"}[kind]
        return f.norm(self.vals[repr((fld, p, repr(i), repr(j)))])


def receivers(bf, i, j, walltop=None):
    """which level of column (i, j) soil slides onto, as documented:
    [(guard, kind, top)]; walltop: top of the source's wall, None for ground"""
    T = bf.get("T", i, j)
    w = {s: (bf.get("B", i, j, s), bf.get("B", i, j, s + 1)) for s in (0, 2)}
    so = {s: (bf.get("S", i, j, s), bf.get("S", i, j, s + 1)) for s in (0, 2)}
    no = {s: And(eq(w[s][0]), eq(w[s][1])) for s in (0, 2)}
    empty = {s: And(eq(so[s][0]), eq(so[s][1])) for s in (0, 2)}
    out = [(And(no[0], no[2]), "T", T)]

    def below(s):
        """the ground is open below wall s"""
        if walltop is None:
            return gt(w[s][0] - T - TOLP)
        return gt(w[s][0] - walltop - TOLP)
    for s in (0, 2):
        o = WALLS[s]
        one = And(Not(no[s]), no[o])
        out.append((And(one, below(s)), "T", T))
        out.append((And(one, Not(below(s)), Not(empty[s])), s, so[s][1]))
        out.append((And(one, Not(below(s)), empty[s]), s, w[s][1]))
    for lo in (0, 2):
        hi = WALLS[lo]
        two = And(Not(no[0]), Not(no[2]), gt(w[hi][0] - w[lo][0]) if lo == 0 else ge(w[hi][0] - w[lo][0]))
        room = gt(w[hi][0] - so[lo][1] - TOLP)
        if walltop is None:
            out.append((And(two, below(lo)), "T", T))
            base = And(two, Not(below(lo)))
        else:
            base = And(two, below(hi))
            above = And(two, Not(below(hi)))
            out.append((And(above, Not(empty[hi])), hi, so[hi][1]))
            out.append((And(above, empty[hi]), hi, w[hi][1]))
        out.append((And(base, empty[lo]), lo, w[lo][1]))
        out.append((And(base, Not(empty[lo]), room), lo, so[lo][1]))
        out.append((And(base, Not(empty[lo]), Not(room), Not(empty[hi])), hi, so[hi][1]))
        out.append((And(base, Not(empty[lo]), Not(room), empty[hi]), hi, w[hi][1]))
    return out


class Diagnose(Slope):
    """the level of the neighbouring column that is examined is the documented
    one, and it receives soil exactly when it is low enough"""

    def __init__(self):
        super().__init__()
        self.segs = {}
        self.found = 0

    def cut(self, ip, st, seg, why, node):
        if why == "back":
            self.segs[id(st)] = seg
        self.last = (st, seg)

    def done(self):
        if not self.found:
            self.fail(("relax.cpp", 0), "no loop over the neighbours of the candidates was found")

    def iteration(self, ip, loop, head, back):
        adj = adjacency(ip, loop, back)
        if adj is None:
            return
        seg = self.last[1]
        rows, d, r = adj
        src = source(ip, loop, back)
        if src is None:
            return
        self.found += 1
        for st, kind, ii, jj, ind, nn in src:
            if st.facts.dead:
                continue
            f = st.facts
            ic, jc = f.norm(ii + d[0]), f.norm(jj + d[1])
            inds = [None]
            if kind == "rec":
                c = f.norm(ind).cval()
                inds = [c] if c is not None else [0, 2]
            for k in inds:
                s = st.copy()
                if k is not None:
                    s.facts.assume(eq(ind - k))
                    if s.facts.dead:
                        continue
                for bf in Before.all(ip, s, seg, ((ii, jj), (ic, jc))):
                    self.decide(ip, bf.st, seg, bf, k, ii, jj, ic, jc, ip.loc(loop.s), nn if kind == "rec" else None)

    def decide(self, ip, st, seg, bf, ind, ii, jj, ic, jc, loc, nn=None):
        from .poly import CELLZ
        D, c = repose(), A(CELLZ)
        if ind is None:
            S, wt = bf.get("T", ii, jj), None
        else:
            S, wt = bf.get("S", ii, jj, ind + 1), bf.get("B", ii, jj, ind + 1)
        mv = self.moves(ip, st, seg)
        rec = receivers(bf, ic, jc, wt)
        sk = ("T" if ind is None else ind, st.facts.norm(ii), st.facts.norm(jj))
        dst = [m for m in mv if m[0] != sk]
        if mv:
            loc = mv[-1][2].loc
        for guard, kind, top in rec:
            s = st.copy()
            g = s.facts
            g.assume(guard)
            if g.dead:
                continue
            if not dst:
                goal = ge(D + c.scale(Fr(1, 2)) - (S - top))
                if nn is not None:      # the parcel has been used up in another direction
                    goal = Or(goal, eq(peek(ip, s, "body_soil_pos_", (nn,), "h_soil")[0][1]))
                self.ob(loc, holds(g, goal),
                        "an unstable pair of columns may be left without a move", guard=guard, receiver=kind, source=S, destination=top, path=path_of(s))
            else:
                if any(e.kind == "set" and e.lv.path[-1:] == (("f", "equilibrium_"),) for e in seg):
                    pass
                ok = all(m[0][0] == kind and g.norm(m[0][1]) == g.norm(ic) and g.norm(m[0][2]) == g.norm(jc) for m in dst)
                if not ok:
                    ok = holds(g, Or(eq(ONE), *[eq(m[1]) for m in dst][:1]))
                self.ob(loc, ok, "soil is moved to another level of the column than the one that was found unstable",
                        receiver=kind, moved=[m[0] for m in dst], path=path_of(s))


# ---------------------------------------------------------------- C10
from .model import Model


class Tracked(Model):
    track = True
    start = True

    def simout(self):
        return super().simout().set("equilibrium_", L.T if self.start else L.F)


class TrackedF(Tracked):
    start = False


class Flag(Obl):
    """the equilibrium flag is cleared by every path that moved soil"""

    def __init__(self, sets, start=True):
        super().__init__()
        self.sets, self.start = sets, start

    def exit(self, ip, st, sig, fd):
        sim = st.store[("sim",)]
        e, mv = sim.f["equilibrium_"], sim.f["~moved"]
        f = st.facts
        nm = fd["name"].split("::")[-1]
        self.ob(ip.loc(fd), f.prove(Or(Not(mv), Not(e))), "%s may move soil and still leave the equilibrium flag set" % nm,
                flag=e, moved=mv, path=path_of(st))
        if self.sets:
            self.ob(ip.loc(fd), f.prove(Or(mv, e)), "%s may leave the equilibrium flag cleared without moving soil" % nm,
                    flag=e, moved=mv, path=path_of(st))
        elif not self.start:
            self.ob(ip.loc(fd), f.prove(Not(e)), "%s may set the equilibrium flag by itself" % nm, flag=e, path=path_of(st))

    def cut(self, ip, st, seg, why, node):
        for e in seg:
            if e.kind == "set" and e.lv.path[-1:] == (("f", "equilibrium_"),):
                self.sites.add(tuple(e.loc))
