"""Fixpoint abstraction of one loop.

 1. the set of locations the body may modify is computed (iterated to stability);
 2. at the head these are forgotten (fresh values / new array epochs);
 3. heads are partitioned on "not yet initialised" and on flags the body sets to constants;
 4. the head is re-constrained by (a) affine equalities: the null space of the
    body's effect (Karr), (b) candidate facts that are true on entry and preserved
    by every path round the loop (the largest inductive subset is kept);
 5. one last pass over the stable heads produces the exit states and, when
    recording is on, shows every path through the body to the property modules.
"""
from fractions import Fraction
from . import poly as P
from .poly import Poly, K, A, ZERO, ONE, ATOMS, fresh, is_int, is_ht, subst
from . import logic as L
from .logic import Bx, lit, ge, gt, eq, ne, Not, And, Or, T, F, bsubst
from .values import *
from .ir import Broken

MAXPASS = 14


def walkval(v, path):
    for k, p in path:
        if isinstance(v, Struct):
            v = v.f[p]
        elif isinstance(v, VList):
            v = v.items[p]
        else:
            return None
    return v


def setval(v, path, val):
    if not path:
        return val
    k, p = path[0]
    if isinstance(v, Struct):
        return v.set(p, setval(v.f[p], path[1:], val))
    if isinstance(v, VList):
        return v.set(p, setval(v.items[p], path[1:], val))
    raise Broken("loop: cannot restore %r" % (v,))


def diffval(facts, h, b, path, out):
    """descriptors of differences; each is (kind, path, extra)"""
    if h is b:
        return
    if isinstance(h, Poly) and isinstance(b, Poly):
        if h != b and facts.norm(h - b) != ZERO:
            out.add(("s", path, None))
        return
    if isinstance(h, Bx) and isinstance(b, Bx):
        if h != b and facts.bnorm(h) != facts.bnorm(b):
            out.add(("s", path, None))
        return
    if isinstance(h, Struct) and isinstance(b, Struct) and h.name == b.name:
        for f in h.f:
            diffval(facts, h.f[f], b.f[f], path + (("f", f),), out)
        return
    if isinstance(h, VList) and isinstance(b, VList) and len(h.items) == len(b.items):
        for j in range(len(h.items)):
            diffval(facts, h.items[j], b.items[j], path + (("i", j),), out)
        return
    if isinstance(h, Sym) and isinstance(b, Sym) and h.name == b.name:
        if h.size != b.size:
            if any(facts.norm(x - y) != ZERO for x, y in zip(h.size, b.size)):
                out.add(("z", path, None))
        hl = {}
        for f in h.ep:
            if h.ep[f] != b.ep.get(f):
                if not b.log and b.pats is h.pats and f.__class__ and str(b.ep[f]).startswith("o"):
                    out.add(("o", path, f))
                else:
                    out.add(("a", path, f))
                continue
            a1 = [x for x in h.log if x[1] == f or x[1] == "*"]
            a2 = [x for x in b.log if x[1] == f or x[1] == "*"]
            if a1 == a2:
                continue
            if len(a2) >= len(a1) and a2[:len(a1)] == a1 and b.size != h.size:
                # only pushes?
                ok = all(len(x[0]) == 1 and isinstance(x[0][0], Poly) and
                         _pushkey(facts, x[0][0], h.size[0], b.size[0]) for x in a2[len(a1):])
                if ok:
                    continue
            out.add(("a", path, f))
        if h.sum is not None and h.sum != b.sum:
            if b.sum is None or facts.norm(h.sum - b.sum) != ZERO:
                out.add(("m", path, None))
        if h.fill != b.fill:
            for f in h.ep:
                out.add(("a", path, f))
        return
    if isinstance(h, (VList, Perm)) and isinstance(b, Perm):
        if isinstance(h, Perm) and h.ver == b.ver:
            return
        rh = h.items if isinstance(h, VList) else h.rows
        if len(rh) == len(b.rows) and sorted(map(repr, rh)) == sorted(map(repr, b.rows)):
            out.add(("p", path, None))
            return
        out.add(("v", path, None))
        return
    if isinstance(h, (VList, Perm)) and isinstance(b, (VList, Sym, Perm)):
        out.add(("v", path, None))
        return
    if isinstance(h, Iter) and isinstance(b, Iter) and h.lv == b.lv:
        if facts.norm(h.idx - b.idx) != ZERO:
            out.add(("t", path, None))
        return
    if h is UNINIT or b is UNINIT:
        out.add(("s", path, None))
        return
    try:
        same = h == b
    except Exception:
        same = False
    if not same:
        out.add(("x", path, None))


def _pushkey(facts, k, lo, hi):
    c1 = facts.norm(k - lo).cval()
    if c1 is not None:
        return c1 >= 0
    return facts.decide(ge(k - lo)) is True


class Sig:
    """one partition of the loop head"""

    def __init__(self, key):
        self.key = key
        self.cands = {}      # Bx -> True   (over head atoms)
        self.seeded = False


class AbsLoop:
    def __init__(self, ip, s, st, cond, inc, body, cv):
        self.ip, self.s, self.entry, self.cond, self.inc, self.body, self.cv = ip, s, st, cond, inc, body, cv
        self.hk = (id(s), st.x.get("frame", 0))
        h = ip.hint.setdefault(self.hk, {"mods": set(), "noint": set(), "noht": set(), "noconst": set(),
                                         "consts": set(), "isbool": set(), "vinfo": {}})
        self.mods = set(h["mods"])
        self.noint, self.noht, self.noconst, self.consts, self.isbool = (
            set(h[k]) for k in ("noint", "noht", "noconst", "consts", "isbool"))
        self.h = h
        self.atoms = {}
        self.epid = None
        self.parent = ip.loopobjs[-1] if ip.loopobjs else None

    # ------------------------------------------------------------ running the body
    def once(self, head):
        """-> (back states, exit states [(st, sig)])"""
        ip = self.ip
        backs, exits = [], []
        ts, fs = ip.evcond(self.cond, head.copy(), self.cv, self.s)
        for f in fs:
            exits.append((f, None, "cond"))
        for t in ts:
            for b, sig in ip.chkthrow(ip.exec(self.body, t)):
                if sig is None or sig == ("continue",):
                    if self.inc is not None:
                        backs.extend(x for x, _ in ip.ev(self.inc, b))
                    else:
                        backs.append(b)
                elif sig == ("break",):
                    exits.append((b, None, "break"))
                else:
                    exits.append((b, sig, "leave"))
        backs = [b for b in backs if not b.facts.dead]
        for b in backs:
            ip.model.loss(ip, head, b)
        return backs, exits

    def diff(self, head, back):
        out = set()
        for r, v in head.store.items():
            if r[0] == "t":
                continue
            b = back.store.get(r)
            if b is v or b is None:
                continue
            o = set()
            diffval(back.facts, v, b, (), o)
            for k, p, x in o:
                out.add((k, r, p, x))
        if any(m[0] in ("v", "x") for m in self.mods):
            cov = [(m[1], m[2]) for m in self.mods if m[0] in ("v", "x")]
            out = {d for d in out if d[0] in ("v", "x") and (d[1], d[2]) in cov or not any(
                d[1] == r and d[2][:len(p)] == p for r, p in cov)}
        for g, v in head.ghost.items():
            if back.facts.norm(back.ghost[g] - v) != ZERO:
                out.add(("g", g, (), None))
        return out

    # ------------------------------------------------------------ head construction
    def headval(self, d, cur):
        """shared head value of a descriptor"""
        if d in self.atoms:
            return self.atoms[d]
        k, r, p, x = d
        nm = "%s%s" % (r[-1] if not isinstance(r[-1], int) else "v%d" % r[-1],
                       "".join("." + str(q[1]) for q in p)) if k != "g" else str(r)
        v = None
        if k in ("s", "t", "g"):
            if k == "s" and (isinstance(cur, Bx) or d in self.isbool):
                v = ne(A(fresh(nm, isint=True, dom=(0, 1))))
            else:
                a = fresh(nm, isint=d not in self.noint, ht=d not in self.noht and d in self.noint)
                v = A(a)
        elif k in ("z",):
            v = A(fresh("size:" + nm, isint=True))
        elif k == "m":
            v = A(fresh("sum:" + nm))
        elif k == "p":
            v = "p%d" % P.fresh_id()
        self.atoms[d] = v
        return v

    def classify(self, vals, d):
        """update int / ht status from concrete values"""
        ch = False
        for v in vals:
            if isinstance(v, Poly):
                if d not in self.noint and not is_int(v):
                    self.noint.add(d)
                    ch = True
                if d not in self.noht and not is_ht(v):
                    self.noht.add(d)
                    ch = True
        return ch

    def get(self, st, d):
        k, r, p, x = d
        if k == "g":
            return st.ghost[r]
        v = walkval(st.store[r], p)
        if k == "t":
            return v.idx
        if k == "z":
            return v.size[0]
        if k == "m":
            return v.sum
        return v

    def mkhead(self, sigkey):
        ip = self.ip
        st = self.entry.copy()
        soil = False
        for d in sorted(self.mods, key=repr):
            k, r, p, x = d
            if k == "g":
                st.ghost[r] = self.headval(d, None)
                soil = True
                continue
            root = st.store[r]
            cur = walkval(root, p)
            if k == "s":
                c = sigkey.get(d)
                nv = c if c is not None else self.headval(d, cur)
            elif k == "t":
                nv = Iter(cur.lv, self.headval(d, cur))
            elif k in ("a", "o"):
                ep = dict(cur.ep)
                ep[x] = ("o" if k == "o" else "") + "L%d" % self.epid
                log = tuple(e for e in cur.log if e[1] != x and e[1] != "*") if k == "a" else ()
                fill = cur.fill
                if fill is not None and x in fill and k == "a":
                    fill = {f: v for f, v in fill.items() if f != x} or None
                nv = cur.rep(ep=ep, log=log, fill=fill, reads={}, pats=cur.pats if k == "o" else None)
                if ip.model.is_soil(cur, x):
                    soil = True
            elif k == "z":
                nv = cur.rep(size=(self.headval(d, cur),) + cur.size[1:], gen=cur.gen + 1)
            elif k == "m":
                nv = cur.rep(sum=self.headval(d, cur))
            elif k == "p":
                rows = cur.items if isinstance(cur, VList) else cur.rows
                nv = Perm(rows, self.headval(d, cur), cur.et, cur.gen)
            elif k == "v":
                nv = self.grown(d, cur)
            else:
                nv = Opaque("loopval", repr(r), P.fresh_id()) if not isinstance(cur, (Opaque, Str)) else Opaque("loopval", repr(r), P.fresh_id())
            st.store[r] = setval(root, p, nv)
        self.soil = soil
        if soil:
            ip.model.rebase(ip, st, self.epid)
            st.seg = ()
        return st

    def grown(self, d, cur):
        """a local vector whose length changes becomes a symbolic array"""
        info = self.vinfo.get(d)
        if info is None:
            return Opaque("loopvec", repr(d[1]), P.fresh_id())
        if d not in self.atoms:
            leaf = info
            nm = "%s#%d" % (d[1][-1], P.fresh_id())
            tag = self.ip.model.tagof(leaf)
            self.atoms[d] = (nm, leaf, tag, A(fresh("len", isint=True)), A(fresh("sum:" + nm)) if tag == "recs" else None)
        nm, leaf, tag, n, sm = self.atoms[d]
        fs = leaf[1] if leaf[0] == "fields" else ("",)
        return Sym(nm, tag, 1, leaf, {f: "0" for f in fs}, (), (n,), sm, None, None, getattr(cur, "gen", 0) + 1)

    def vshape(self, d, backs):
        """leaf shape of a vector that grows in the loop"""
        if d in self.vinfo:
            return
        sh = None
        for b in [self.entry] + backs:
            v = walkval(b.store[d[1]], d[2])
            items = v.items if isinstance(v, VList) else v.rows if isinstance(v, Perm) else None
            if isinstance(v, Sym):
                s2 = v.leaf if v.depth == 1 else None
                if s2 is None:
                    self.vinfo[d] = None
                    return
                sh = sh or s2
                continue
            if items is None:
                self.vinfo[d] = None
                return
            for it in items:
                s2 = self.ip.shape(it)
                if s2 is None:
                    self.vinfo[d] = None
                    return
                if isinstance(v, VList) and v.et is not None and not isinstance(v.et, str) and s2[0] != "fields" and v.et[0] in ("int", "float", "bool"):
                    s2 = v.et
                sh = sh or s2
        self.vinfo[d] = sh

    # ------------------------------------------------------------ the fixpoint
    def run(self):
        ip = self.ip
        m = ip.model
        self.mark = len(m.pending)
        ip.loopstack.append(self.hk)
        ip.loopobjs.append(self)
        cheap = ip.cheap
        m.depth += 1
        try:
            self.fix()
            # the last pass is the analysis of the stable heads
            if self.soil:
                e = self.entry.copy()
                m.cut(ip, e, self.s, "enter")
            out = []
            allb = []
            for sg, head, backs, exits in self.last:
                for b in backs:
                    if self.soil:
                        m.cut(ip, b, self.s, "back")
                    m.iteration(ip, self, sg, head, b)
                    allb.append((head, b))
                for x, sig, why in exits:
                    x = x.copy()
                    if m.marks:
                        x.seg = x.seg + (Ev("loop", ip.loc(self.s), loop=self, why=why),)
                    out.append((x, sig, why, head))
        except BaseException:
            del m.pending[self.mark:]
            raise
        finally:
            ip.loopstack.pop()
            ip.loopobjs.pop()
            m.depth -= 1
            ip.cheap = m.cheap = cheap
        for fr in ip.loopstack:
            ip.stats["nested"][fr] = True
        if m.depth == 0:
            m.flush()
        res = self.finish(out, allb)
        for k in ("mods", "noint", "noht", "noconst", "consts", "isbool"):
            self.h[k] |= getattr(self, k)
        return res

    def start(self, sg):
        head = self.mkhead(dict(sg.key))
        for b in self.eqs:
            head.facts.assume(b)
        for b in sg.cands:
            head.facts.assume(b)
        self.assume_cells(head, sg)
        return head

    def assume_cells(self, head, sg):
        for (r, p, f, key), val in self.pres.items():
            sym = walkval(head.store[r], p)
            if not isinstance(sym, Sym):
                continue
            v = self.basecell(head, r, p, sym, key, f)
            if isinstance(v, Poly) and isinstance(val, Poly):
                head.facts.assume(eq(v - val))

    def basecell(self, st, r, p, sym, key, f):
        lv = LV(r, tuple((k, K(q) if k == "i" else q) for k, q in p))
        res = self.ip.base(st, lv, len(lv.path), sym, key, f, None)
        return res[0][1] if len(res) == 1 else None

    def restart(self):
        self.atoms = {}
        self.epid = P.fresh_id()
        self.eqs = []
        self.pres = None

    def fix(self):
        ip = self.ip
        self.vinfo = self.h["vinfo"]
        self.soil = False
        # ---- phase 1: modified locations, attributes, partitions
        e = self.entry.copy()
        outer = ip.cheap
        ip.cheap = ip.model.cheap = 1
        if not self.mods:
            backs, _ = self.once(e)
            for b in backs:
                self.mods |= self.diff(self.entry, b)
            self.note(backs)
            for d in self.mods:
                if d[0] != "s" or d in self.isbool or d in self.noconst:
                    continue
                vs = [self.getq(x, d) for x in [self.entry] + backs]
                cs = {v.cval() for v in vs if isinstance(v, Poly)}
                bs = {v.cval() for v in vs[1:] if isinstance(v, Poly)}
                if all(isinstance(v, Poly) or v is UNINIT for v in vs) and all(isinstance(c, int) for c in cs) and len(cs) <= 4 and (
                        len(bs) > 1 or isinstance(vs[0], Poly) and vs[0].cval() in bs):
                    self.consts.add(d)
        else:
            self.mods = {d for d in self.mods if (d[0] == "g" and d[1] in self.entry.ghost) or self.exists(d)}
        for d in list(self.mods):
            self.classify([self.getq(self.entry, d)], d)
        n = 0
        while True:
            n += 1
            if n > MAXPASS:
                raise Broken("loop abstraction does not stabilise at %s:%s" % ip.loc(self.s))
            self.restart()
            self.closemods()
            again = False
            self.sigs = {}
            first = self.sigof(self.entry, None)
            self.pres = {}
            work = [first]
            self.sigs[first.key] = first
            results = []
            self.last = []
            del ip.model.pending[self.mark:]
            while work:
                sg = work.pop()
                head = self.start(sg)
                backs, exits = self.once(head)
                ip.stats["passes"] += 1
                results.append((sg, head, backs))
                self.last.append((sg, head, backs, exits))
                new = set()
                for b in backs:
                    new |= self.diff(head, b)
                if not new <= self.mods:
                    self.mods |= new
                    again = True
                self.note(backs)
                for d in self.mods:
                    if d[0] in ("s", "g", "t"):
                        if self.classify([self.getq(b, d) for b in backs] + [self.getq(self.entry, d)], d):
                            again = True
                if again:
                    break
                for b in backs:
                    k = self.sigof(b, head)
                    if k is None:
                        again = True
                        break
                    if k.key not in self.sigs:
                        for d, v in k.key:
                            if d in self.consts and len({dict(x.key).get(d) for x in self.sigs.values()} | {v}) > 4:
                                self.noconst.add(d)
                                self.consts.discard(d)
                                again = True
                        if again:
                            break
                        if len(self.sigs) > 12:
                            raise Broken("too many loop partitions at %s:%s" % ip.loc(self.s))
                        self.sigs[k.key] = k
                        work.append(k)
                if again:
                    break
            if not again:
                if self.promote(results):
                    continue
                if ip.cheap and not outer and ip.stats["nested"].get(self.hk):
                    # same partitions again, with the inner loops analysed precisely
                    ip.cheap = ip.model.cheap = 0
                    continue
                ip.cheap = ip.model.cheap = outer
                break
        if ip.cheap:
            self.eqs, self.psum = [], []
            return
        # ---- phase 2: affine equalities and candidate facts
        self.karr(results)
        self.candidates(results, first)
        for n in range(MAXPASS):
            results = []
            self.last = []
            del ip.model.pending[self.mark:]
            for sg in self.sigs.values():
                head = self.start(sg)
                if head.facts.dead:
                    results.append((sg, head, []))
                    continue
                backs, exits = self.once(head)
                ip.stats["passes"] += 1
                results.append((sg, head, backs))
                self.last.append((sg, head, backs, exits))
            more = self.morecands(results, first) if n == 0 else 0
            if not self.prune(results) and (n > 0 or not more):
                break
        else:
            raise Broken("loop invariants do not stabilise at %s:%s" % ip.loc(self.s))

    def exists(self, d):
        k, r, p, x = d
        if r not in self.entry.store:
            return False
        v = walkval(self.entry.store[r], p)
        if k in ("a", "o", "z", "m"):
            return isinstance(v, Sym) and (x is None or x in v.ep) and (k != "m" or v.sum is not None)
        if k in ("s",):
            return isinstance(v, (Poly, Bx)) or v is UNINIT
        if k == "t":
            return isinstance(v, Iter)
        if k in ("p", "v"):
            return isinstance(v, (VList, Perm))
        return v is not None

    def getq(self, st, d):
        try:
            v = self.get(st, d)
        except (AttributeError, KeyError, TypeError):
            return None
        return st.facts.norm(v) if isinstance(v, Poly) else v

    def note(self, backs):
        for d in list(self.mods):
            if d[0] == "v":
                self.vshape(d, backs)
            if d[0] == "s":
                for b in backs + [self.entry]:
                    if isinstance(self.getq(b, d), Bx):
                        self.isbool.add(d)

    def closemods(self):
        """descriptors below an aggregate that changes as a whole are dropped;
        the soil arrays are forgotten together"""
        for d in list(self.mods):
            if d[0] in ("v", "x", "p"):
                for q in list(self.mods):
                    if q is not d and q[1] == d[1] and q != d and q[2][:len(d[2])] == d[2] and (
                            len(q[2]) > len(d[2]) or q[0] in ("p", "a", "z") and d[0] == "v"):
                        self.mods.discard(q)
            if d[0] == "a":
                self.mods.discard(("o",) + d[1:])
        self.mods |= self.ip.model.group(self.entry, self.mods)

    def sigof(self, st, head):
        """partition of a state (None: a flag had to be demoted -> restart)"""
        key = []
        for d in sorted(self.mods, key=repr):
            if d[0] != "s":
                continue
            v = self.getq(st, d)
            if v is UNINIT:
                key.append((d, UNINIT))
                continue
            if d in self.noconst:
                continue
            if not isinstance(v, Bx) and d not in self.consts:
                continue
            if self.constof(v) is None:
                self.noconst.add(d)
                if head is not None:
                    return None
                continue
            key.append((d, v))
        return Sig(tuple(key))

    def promote(self, results):
        """selector-like integers: every path leaves them alone or sets a constant"""
        ch = False
        for d in self.mods:
            if d[0] != "s" or d in self.noconst or d in self.consts or d in self.isbool:
                continue
            e = self.getq(self.entry, d)
            if not (e is UNINIT or isinstance(e, Poly) and isinstance(e.cval(), int)):
                continue
            vals = set()
            ok = True
            for sg, head, backs in results:
                hv = self.getq(head, d)
                for b in backs:
                    v = self.getq(b, d)
                    if v is hv or v == hv:
                        continue
                    if not isinstance(v, Poly) or not isinstance(v.cval(), int):
                        ok = False
                        break
                    vals.add(v.cval())
            if ok and vals and len(vals) <= 4:
                self.consts.add(d)
                ch = True
        return ch

    def constof(self, v):
        if isinstance(v, Bx):
            return v.op if v.op in ("T", "F") else None
        if isinstance(v, Poly):
            return v.cval()
        return None

    # ------------------------------------------------------------ Karr
    def numeric(self):
        out = []
        for d in sorted(self.mods, key=repr):
            if d[0] in ("s", "g", "t", "z", "m") and not (d[0] == "s" and d in self.isbool):
                out.append(d)
        return out

    def karr(self, results):
        ds = []
        for d in self.numeric():
            if d[0] == "s" and any(dict(sg.key).get(d) is not None for sg in self.sigs.values()):
                continue
            if self.getq(self.entry, d) is UNINIT or self.getq(self.entry, d) is None:
                continue
            ds.append(d)
        if not self.ip.cheap:
            ms = [d for d in ds if d[0] == "m"]
            ghs = lambda s: s.ghost["GS"]
            for sg, head, backs in results:
                for b in backs:
                    t = b.ghost["GT"] + b.ghost["GS"] - head.ghost["GT"] - head.ghost["GS"]
                    u = ghs(b) - ghs(head)
                    for d in ms:
                        hv, bv = self.getq(head, d), self.getq(b, d)
                        if isinstance(hv, Poly) and isinstance(bv, Poly):
                            u = u - bv + hv
                    for d, v in self.atoms.items():
                        if d[0] == "v" and isinstance(v, tuple) and v[4] is not None:
                            x = self.vsum(b, d)
                            if x is not None:
                                u = u - x + v[4]
                    for t in (t, u):
                        t = b.facts.norm(t)
                        if t.t:
                            b.facts.implied_equalities(t.deep())
        cols = []          # per back edge, per descriptor: delta poly
        good = []
        for d in ds:
            col = []
            ok = True
            for i, (sg, head, backs) in enumerate(results):
                for j, b in enumerate(backs):
                    hv, bv = self.getq(head, d), self.getq(b, d)
                    if not isinstance(hv, Poly) or not isinstance(bv, Poly):
                        ok = False
                        break
                    col.append(b.facts.norm(bv - hv))
            if ok:
                good.append(d)
                cols.append(col)
        for d, v in sorted(self.atoms.items(), key=repr):
            if d[0] == "v" and isinstance(v, tuple) and v[4] is not None:
                e = self.vsum(self.entry, d)
                col = []
                for sg, head, backs in results:
                    for b in backs:
                        x = self.vsum(b, d)
                        col.append(None if x is None else b.facts.norm(x - v[4]))
                if e is not None and all(c is not None for c in col):
                    good.append(("vsum", e, v[4], None))
                    cols.append(col)
        self.psums(results, good, cols)
        # matrix rows: (edge, monomial), columns: descriptors
        rows = {}
        for c, col in enumerate(cols):
            for e, p in enumerate(col):
                for m, k in p.t.items():
                    rows.setdefault((e, m), {})[c] = Fraction(k)
        basis = nullspace(list(rows.values()), len(cols))
        self.eqs = []
        for vec in basis:
            if sum(1 for x in vec if x) < 1:
                continue
            p = ZERO
            p0 = ZERO
            for c, k in enumerate(vec):
                if k:
                    kk = P._norm(k)
                    p = p + self.karrhead(good[c]).scale(kk)
                    p0 = p0 + self.karrentry(good[c]).scale(kk)
            self.eqs.append(eq(p - p0))

    def vsum(self, st, d):
        """sum of the amounts in a local record vector"""
        v = walkval(st.store[d[1]], d[2])
        if isinstance(v, Sym):
            return v.sum
        if isinstance(v, VList):
            t = ZERO
            for x in v.items:
                if not isinstance(x, Struct) or not isinstance(x.f.get("h_soil"), Poly):
                    return None
                t = t + x.f["h_soil"]
            return st.facts.norm(t)
        return None

    def karrhead(self, d):
        if d[0] in ("psum", "vsum"):
            return d[2]
        return self.headval(d, None)

    def karrentry(self, d):
        if d[0] == "psum":
            return ZERO
        if d[0] == "vsum":
            return self.entry.facts.norm(d[1])
        return self.entry.facts.norm(self.getq(self.entry, d))

    def psums(self, results, good, cols):
        """partial sums of an unmodified record vector along a unit-step counter"""
        self.psum = []
        if not results or not any(b for _, _, b in results):
            return
        syms = []
        for r, v in self.entry.store.items():
            for p, sym in findsyms(v, ()):
                if sym.tag == "recs" and sym.depth == 1 and sym.sum is not None and not sym.log and not any(
                        d[1] == r and d[2] == p for d in self.mods):
                    syms.append((r, p, sym))
        if not syms:
            return
        f = self.ip.model.sumfield(None)
        for ci, d in enumerate(list(good)):
            if d[0] not in ("s", "t") or self.getq(self.entry, d) != ZERO:
                continue
            if any(x != ONE for x in cols[ci]):
                continue
            for r, p, sym in syms:
                n = 0
                atomv = A(fresh("psum:" + sym.name))
                col = []
                for sg, head, backs in results:
                    c = self.basecell(head, r, p, sym, (self.headval(d, None),), f)
                    for b in backs:
                        col.append(b.facts.norm(c) if c is not None else None)
                if any(c is None for c in col):
                    continue
                desc = ("psum", (d, r, p), atomv, None)
                good.append(desc)
                cols.append(col)
                self.psum.append((d, r, p, sym, atomv))

    # ------------------------------------------------------------ candidate facts
    def heads(self):
        return {d: self.headval(d, None) for d in self.numeric()}

    def candidates(self, results, first):
        for d in self.numeric():
            e = self.getq(self.entry, d)
            for sg in self.sigs.values():
                c = dict(sg.key).get(d)
                if c is not None:
                    continue
                x = self.headval(d, None)
                cs = [ge(x)]
                if d[0] in ("g", "m"):
                    continue
                if d[0] in ("z",):
                    cs = [ge(x - e)]
                elif isinstance(e, Poly):
                    cs += [ge(x - e), ge(e - x)]
                    cs += [gt(e - x), gt(x - e)]
                for b in cs:
                    if b.op not in ("T", "F"):
                        sg.cands[b] = True
        for d, v in self.atoms.items():
            if d[0] == "v" and isinstance(v, tuple):
                for sg in self.sigs.values():
                    sg.cands[ge(v[3])] = True
        # relaxed loop condition
        for sg, head, backs in results:
            h2 = head.copy()
            n0 = set(h2.facts.ineq)
            try:
                ts, fs = self.ip.evcond(self.cond, h2, self.cv, self.s)
            except Broken:
                continue
            ha = self.headatoms()
            for t in ts:
                for b in t.facts.ineq:
                    if b in n0 or not (b.deep() & ha):
                        continue
                    for q in (b, relax(b)):
                        if q is not None and q.op not in ("T", "F"):
                            sg.cands[q] = True
                            if q is not b:
                                for o in self.sigs.values():
                                    o.cands[q] = True
        # preserved cells
        self.pres = self.preserved()
        for sg in self.sigs.values():
            for b in list(sg.cands):
                if sg is first and not self.onentry(b):
                    del sg.cands[b]

    def headatoms(self):
        s = set()
        for v in self.atoms.values():
            if isinstance(v, Poly):
                s |= v.deep()
            elif isinstance(v, Bx):
                s |= v.deep()
        return s

    def onentry(self, b):
        sub = self.subof(self.entry)
        q = bsubst(b, sub)
        return self.entry.facts.prove(q, 1)

    def subof(self, st):
        sub = {}
        for d, v in self.atoms.items():
            if isinstance(v, Poly):
                a = v.as_atom()
                if a is None:
                    continue
                q = self.getq(st, d)
                if isinstance(q, Poly):
                    sub[a.id] = q
            elif isinstance(v, Bx) and v.op == "ne":
                q = self.getq(st, d)
                a = v.a.as_atom()
                if isinstance(q, Bx) and a is not None and q.op in ("T", "F"):
                    sub[a.id] = ONE if q.op == "T" else ZERO
            elif isinstance(v, tuple) and d[0] == "v":
                q = walkval(st.store[d[1]], d[2])
                n = v[3].as_atom()
                try:
                    sub[n.id] = self.ip.vsize(q)
                except Broken:
                    pass
        return sub

    def preserved(self):
        out = {}
        e = self.entry
        for d in sorted(self.mods, key=repr):
            if d[0] != "a":
                continue
            k, r, p, f = d
            sym = walkval(e.store[r], p)
            keys = []
            for x in sym.log:
                if x[1] == f and all(isinstance(q, Poly) for q in x[0]) and x[0] not in keys:
                    keys.append(x[0])
            nm = "%s%s@" % (sym.name, "." + f if f else "")
            seen = set()
            for root, v in e.store.items():
                if root[0] == "v":
                    for q in polys(v):
                        seen |= q.deep()
            for b in list(e.facts.ineq) + list(e.facts.nes):
                seen |= b.deep()
            for a in sorted(seen):
                at = ATOMS[a]
                if at.kind == "cell" and at.name.startswith(nm) and at.args not in keys:
                    keys.append(at.args)
            for key in keys[:16]:
                lv = LV(r, tuple((kk, K(q) if kk == "i" else q) for kk, q in p))
                c = e.copy()
                try:
                    res = self.ip.symget(c, lv, len(lv.path), key, f, None)
                except Broken:
                    continue
                if len(res) == 1 and isinstance(res[0][1], Poly):
                    out[(r, p, f, key)] = res[0][1]
        return out

    def morecands(self, results, first):
        """facts of the arriving states, rephrased over the head values"""
        total = 0
        for sg, head, backs in results:
            for b in backs:
                k = self.target(b, head)
                tg = self.sigs.get(k)
                if tg is None:
                    continue
                inv = {}
                for d in self.numeric():
                    v, hv = self.getq(b, d), self.getq(head, d)
                    x = self.headval(d, None)
                    if dict(tg.key).get(d) is None and isinstance(v, Poly) and v.cval() is None and v != x and isinstance(x, Poly) and d[0] == "s":
                        inv[v] = x
                if not inv:
                    continue
                n = 0
                for f in list(b.facts.ineq) + list(b.facts.nes) + list(b.facts.clauses):
                    q = rephrase(f, inv)
                    if q is not None and q != f and q.op not in ("T", "F"):
                        if q in tg.cands or not self.worth(q):
                            continue
                        if tg is first and not self.onentry(q):
                            continue
                        tg.cands[q] = True
                        n += 1
                        total += 1
                        if n > 24:
                            break
        return total

    def worth(self, q):
        """can q survive: no cell this loop overwrites, no mere instance of a
        per-column axiom"""
        if self.loopcell(q.deep()):
            return False
        if q.op == "or":
            return all(x.op == "ne" for x in q.a)
        ats = [ATOMS[a] for a in q.deep()]
        cells = [a for a in ats if a.kind == "cell"]
        if len({a.args[-2:] for a in cells}) == 1 and len(cells) > 1 and not any(
                d.kind == "fresh" and A(d) in self.headpolys() for d in ats if d.id in {m[0][0] for m in q.a.t if len(m) == 1}):
            return False
        return True

    def headpolys(self):
        return {v for v in self.atoms.values() if isinstance(v, Poly)}

    def target(self, b, head):
        sg = self.sigof(b, head)
        return sg.key if sg is not None else None

    def prune(self, results):
        dropped = False
        for sg, head, backs in results:
            for b in backs:
                k = self.target(b, head)
                tg = self.sigs.get(k)
                if tg is None:
                    raise Broken("loop partition changed at %s:%s" % self.ip.loc(self.s))
                sub = self.subof(b)
                for q in list(tg.cands):
                    g = b.facts.bnorm(bsubst(q, sub))
                    if g.op == "T":
                        continue
                    if g in b.facts.ineq or g in b.facts.nes or g in b.facts.clauses:
                        continue
                    if not b.facts.prove(g, 1, 5):
                        del tg.cands[q]
                        dropped = True
                c = b.copy() if self.pres else None
                for key in list(self.pres):
                    r, p, f, kk = key
                    lv = LV(r, tuple((k2, K(q) if k2 == "i" else q) for k2, q in p))
                    ok = True
                    try:
                        res = self.ip.symget(c, lv, len(lv.path), kk, f, None)
                        for s2, v in res:
                            if not isinstance(v, Poly) or not s2.facts.prove(eq(v - self.pres[key]), 1):
                                ok = False
                                break
                    except Broken:
                        ok = False
                    if not ok:
                        del self.pres[key]
                        dropped = True
        return dropped

    # ------------------------------------------------------------ exits
    def finish(self, exits, backs):
        ip = self.ip
        vecs = [d for d in self.mods if (d[0] == "v" and isinstance(self.atoms.get(d), tuple)) or d[0] == "z"]
        mark = min([a for v in self.atoms.values() if isinstance(v, Poly) for a in v.deep()] or [len(ATOMS)])
        pats = {d: [] for d in vecs}
        for d in vecs:
            self.collect(d, [b for _, b in backs] + [x for x, _, _, _ in exits], pats[d], mark)
        rw = self.rangewrites(exits, backs)
        out = []
        special = ip.model.foreach_rule(ip, self, exits, backs)
        for st, sig, why, head in exits:
            if st.facts.dead:
                continue
            for d, r, p, sym, atomv in self.psum:
                v = self.getq(head, d)
                if why == "cond" and st.facts.decide(eq(v - sym.size[0])) is True:
                    st.facts.assume(eq(atomv - sym.sum))
            for d in vecs:
                v = walkval(st.store[d[1]], d[2])
                if isinstance(v, Sym) and pats[d] is not None and v.tag == "gen":
                    v2 = v.rep(pats=tuple(pats[d]), log=() if all(self.islocal(x, v) for x in v.log) else v.log)
                    st.store[d[1]] = setval(st.store[d[1]], d[2], v2)
            if rw:
                for d, ents in rw.items():
                    k, r, p, f = d
                    e0 = walkval(self.entry.store[r], p)
                    cur = walkval(st.store[r], p)
                    ep = dict(cur.ep)
                    ep[f] = e0.ep[f]
                    log = e0.log + tuple(x for x in ents if x not in e0.log)
                    fill = e0.fill
                    st.store[r] = setval(st.store[r], p, cur.rep(ep=ep, log=log, fill=fill))
            if special is not None:
                special(st, why)
            out.append((st, sig))
        return out

    def islocal(self, x, v):
        return True

    def collect(self, d, states, out, mark):
        """push patterns of a vector built by this loop"""
        seen = set()
        e0 = walkval(self.entry.store[d[1]], d[2])
        if isinstance(e0, Sym) and e0.pats:
            out.extend(e0.pats)
        if isinstance(e0, VList):
            for it in e0.items:
                out.append(({str(j): x for j, x in enumerate(it.items)} if isinstance(it, VList) else
                            dict(it.f) if isinstance(it, Struct) else {"": it}, (), ()))
        for st in states:
            v = walkval(st.store[d[1]], d[2])
            if not isinstance(v, Sym):
                continue
            groups = {}
            for key, f, val in v.log:
                groups.setdefault(key, {})[f] = val
            for key, vals in groups.items():
                if len(vals) != len(v.fields()):
                    continue
                g, fs = self.pattern(st, vals, mark)
                k = (tuple(sorted(g.items(), key=lambda kv: kv[0])), fs)
                if k in seen:
                    continue
                seen.add(k)
                out.append((g, fs, boundof(g, fs, mark)))
            for g, fs, bd in (v.pats or ()):
                k = (tuple(sorted(g.items(), key=lambda kv: kv[0])), fs)
                if k in seen or (isinstance(e0, Sym) and e0.pats and (g, fs, bd) in e0.pats):
                    continue
                seen.add(k)
                out.append((g, fs, boundof(g, fs, mark)))

    def pattern(self, st, vals, mark):
        g = {}
        atoms = set()
        for f, v in vals.items():
            if isinstance(v, Poly):
                v = st.facts.norm(v)
                if self.loopcell(v.deep()):
                    v = A(fresh("elem", isint=is_int(v), ht=is_ht(v)))
                atoms |= v.deep()
            g[f] = v
        base = {a for a in atoms if ATOMS[a].kind in ("fresh", "tab")}
        fs = []
        for b in list(st.facts.ineq) + list(st.facts.nes) + list(st.facts.clauses):
            if b.deep() & base and not self.loopcell(b.deep()) and len(fs) < 60:
                fs.append(b)
        return g, tuple(fs)

    def loopcell(self, deep):
        tag = "@L%d" % self.epid
        for a in deep:
            at = ATOMS[a]
            if at.kind == "cell" and "@L" in at.name:
                try:
                    if int(at.name.split("@L")[1]) >= self.epid:
                        return True
                except ValueError:
                    return True
        return False

    def rangewrites(self, exits, backs):
        """array fields that the loop only overwrites with constants over a range"""
        if any(why != "cond" for _, _, why, _ in exits) or not backs or len(self.sigs) != 1:
            return {}
        out = {}
        for d in self.mods:
            if d[0] != "a":
                continue
            k, r, p, f = d
            ents = None
            ok = True
            for head, b in backs:
                h, v = walkval(head.store[r], p), walkval(b.store[r], p)
                if not isinstance(v, Sym) or v.ep[f] != h.ep[f]:
                    ok = False
                    break
                es = [x for x in v.log if x[1] == f and x not in h.log]
                if ents is None:
                    ents = es
                elif set(map(repr, ents)) != set(map(repr, es)):
                    ok = False
                    break
            if not ok or not ents:
                continue
            # counters
            cnt = None
            for c in self.numeric():
                if c[0] != "s":
                    continue
                hv = self.headval(c, None)
                step = {repr(b.facts.norm(self.getq(b, c) - hv)) for _, b in backs}
                if step == {repr(ONE)}:
                    cnt = (c, hv)
                    break
            if cnt is None:
                continue
            c, hv = cnt
            lo = self.getq(self.entry, c)
            his = set()
            for st, sig, why, head in exits:
                hi = self.bound(st, hv)
                if hi is None:
                    # an empty range is visited as such when the bounds are reversed
                    from .cover import endbound
                    hi = endbound([x for x, _, w, _ in exits if w == "cond"], [b for _, b in backs], hv, 1)
                his.add(hi)
            if len(his) != 1 or None in his:
                continue
            hi = his.pop()
            ha = self.headatoms()
            res = []
            for key, ff, val in ents:
                if not isinstance(val, (Poly, Bx)) or (isinstance(val, Poly) and val.cval() is None and (val.deep() & ha)):
                    res = None
                    break
                nk = []
                for q in key:
                    if isinstance(q, Rng):
                        if (q.lo.deep() | q.hi.deep()) & ha:
                            nk = None
                            break
                        nk.append(q)
                    else:
                        a = hv.as_atom()
                        if a.id in q.deep():
                            off = q - hv
                            if off.deep() & ha:
                                nk = None
                                break
                            nk.append(Rng(lo + off, hi + off))
                        elif q.deep() & ha:
                            nk = None
                            break
                        else:
                            nk.append(q)
                if nk is None:
                    res = None
                    break
                res.append((tuple(nk), ff, val))
            if res:
                out[d] = res
        return out

    def bound(self, st, hv):
        """the value of a counter on exit of the loop (poly without the counter)"""
        v = st.facts.norm(hv)
        if not (v.deep() & hv.deep()):
            return v
        for b in st.facts.ineq:
            # find  hv >= E  with  hv <= E provable
            if b.op == "ge" and hv.as_atom() is not None:
                m = ((hv.as_atom().id, 1),)
                c = b.a.t.get(m)
                if c == 1:
                    E = hv - b.a
                    if not (E.deep() & hv.deep()) and st.facts.decide(ge(E - hv)) is True:
                        return st.facts.norm(E)
        return None


def boundof(g, fs, mark):
    s = set()
    for v in g.values():
        if isinstance(v, Poly):
            s |= v.deep()
    for b in fs:
        s |= b.deep()
    return tuple(sorted(a for a in s if a >= mark and ATOMS[a].kind == "fresh"))


def findsyms(v, path):
    if isinstance(v, Sym):
        yield path, v
    elif isinstance(v, Struct):
        for f, x in v.f.items():
            yield from findsyms(x, path + (("f", f),))
    elif isinstance(v, VList) and len(v.items) <= 16:
        for j, x in enumerate(v.items):
            yield from findsyms(x, path + (("i", j),))


def polys(v):
    if isinstance(v, Poly):
        yield v
    elif isinstance(v, Struct):
        for x in v.f.values():
            yield from polys(x)
    elif isinstance(v, VList) and len(v.items) <= 16:
        for x in v.items:
            yield from polys(x)


def relax(b):
    """integer inequality weakened by one (strict bound made inclusive)"""
    if b.op == "ge":
        if is_int(b.a):
            return ge(b.a + ONE)
        if is_ht(b.a):
            return ge(b.a + P.C)
    if b.op == "gt":
        return ge(b.a)
    return None


def rephrase(b, inv):
    """replace polys equal to new values of variables by the head values,
    inside array keys and as whole linear parts"""
    sub = {}
    hit = set()
    for a in b.deep():
        at = ATOMS[a]
        if at.kind == "cell" and at.args:
            args = []
            ch = False
            for q in at.args:
                if isinstance(q, Poly) and q in inv:
                    args.append(inv[q])
                    ch = True
                else:
                    args.append(q)
            if ch:
                sub[a] = A(P.atom("cell", at.name, tuple(args), at.isint, at.ht, at.dom))
    for v, x in inv.items():
        at = v.as_atom()
        if at is not None and at.id in b.deep() and at.id not in sub:
            sub[at.id] = x
    if not sub:
        return None
    return bsubst(b, sub)


def nullspace(rows, n):
    """basis of {v : row . v = 0 for all rows}; rows are sparse dicts"""
    piv = {}
    for row in rows:
        r = dict(row)
        for c, pr in piv.items():
            if c in r:
                k = r[c]
                for cc, vv in pr.items():
                    x = r.get(cc, 0) - k * vv
                    if x:
                        r[cc] = x
                    else:
                        r.pop(cc, None)
        if not r:
            continue
        c = min(r)
        k = r[c]
        r = {cc: vv / k for cc, vv in r.items()}
        for c2 in list(piv):
            pr = piv[c2]
            if c in pr:
                k = pr[c]
                for cc, vv in r.items():
                    x = pr.get(cc, 0) - k * vv
                    if x:
                        pr[cc] = x
                    else:
                        pr.pop(cc, None)
        piv[c] = r
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for c, pr in piv.items():
            if f in pr:
                v[c] = -pr[f]
        out.append(v)
    return out
