"""Abstract interpreter over the extracted AST.

Domain: memory graph with symbolic arrays (functional write logs) x affine
equalities / linear inequalities (facts.py).  Paths are partitioned on branch
outcomes inside straight-line code; every loop that is not a constant-trip loop
is abstracted by a fixpoint: the locations modified by the body are computed
(iterated to stability), forgotten at the head, and re-constrained by affine
equalities (null space of the body's effect) and by candidate inequalities that
are inductive.  Nothing is executed.
"""
from fractions import Fraction
from . import poly as P
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, atom, fresh, is_int, is_ht, subst
from . import logic as L
from .logic import Bx, lit, ge, gt, eq, ne, Not, And, Or, T, F, bsubst
from .facts import Facts, add_axioms
from .values import *
from .ir import ptype, strip_ref, Broken


class Abandon(Exception):
    pass


INTT = ("int",)
FLT = ("float",)
BOOL = ("bool",)

LOOPMAX = 300


# ------------------------------------------------------------ applications
def _app(name, args, isint=False, ht=False, dom=None):
    return atom("app", name, tuple(args), isint, ht, dom)


_axdone = set()


def mk(name, *args):
    """build an application term (also used to rebuild under substitution)"""
    cs = [a.cval() if isinstance(a, Poly) else None for a in args]
    x = args[0] if args else None
    if name in ("round", "floor", "ceil", "trunc"):
        if is_int(x):
            return x
        if cs[0] is not None:
            return K(_rnd(name, Fraction(cs[0])))
        # an integer part can be taken out
        ip, rest = _split_int(x)
        if ip.t and name in ("floor", "ceil"):
            return ip + mk(name, rest)
        a = _app(name, (x,), True)
        if a.id not in _axdone:
            _axdone.add(a.id)
            y = A(a)
            h = Fraction(1, 2)
            fs = {"round": [ge(y - x + K(h)), ge(x - y + K(h))],
                  "floor": [ge(x - y), gt(y + ONE - x)],
                  "ceil": [ge(y - x), gt(x + ONE - y)],
                  "trunc": []}[name]
            s = L.sign_of(x)
            if s is not None and s > 0:
                fs.append(ge(y))
                if name == "trunc":
                    fs += [ge(x - y), gt(y + ONE - x)]
            add_axioms(a, fs)
        return A(a)
    if name == "abs":
        if cs[0] is not None:
            return K(abs(cs[0]))
        lead = min(x.t, key=P.mono_order)
        if x.t[lead] < 0:
            x = -x
        s = L.sign_of(x)
        if s is not None:
            return x if s > 0 else -x
        a = _app("abs", (x,), is_int(x), is_ht(x))
        if a.id not in _axdone:
            _axdone.add(a.id)
            y = A(a)
            add_axioms(a, [ge(y - x), ge(y + x), ge(y)], [Or(eq(y - x), eq(y + x))])
        return A(a)
    if name in ("min", "max"):
        xs = []
        for z in args:
            if z not in xs:
                xs.append(z)
        if len(xs) == 1:
            return xs[0]
        sg = 1 if name == "max" else -1
        # drop arguments dominated by a constant distance
        keep = []
        for z in xs:
            dom = False
            for w in xs:
                if w is not z:
                    d = (z - w).scale(sg)
                    c = d.cval()
                    if c is not None and c < 0:
                        dom = True
            if not dom:
                keep.append(z)
        xs = keep
        if len(xs) == 1:
            return xs[0]
        xs = tuple(sorted(xs, key=lambda p: sorted((m, str(c)) for m, c in p.t.items())))
        a = _app(name, xs, all(is_int(z) for z in xs), all(is_ht(z) for z in xs))
        if a.id not in _axdone:
            _axdone.add(a.id)
            y = A(a)
            fs = [ge((y - z).scale(sg)) for z in xs]
            if all(len(z.t) == 1 and all(c > 0 and m and all(q in L.POS for q, _ in m) for m, c in z.t.items()) for z in xs):
                L.POS.add(a.id)
                fs.append(gt(y))
            add_axioms(a, fs, [Or(*[eq(y - z) for z in xs])])
        return A(a)
    if name == "sqrt":
        if cs[0] is not None and cs[0] >= 0:
            r = Fraction(cs[0])
            import math
            n, d = math.isqrt(r.numerator), math.isqrt(r.denominator)
            if n * n == r.numerator and d * d == r.denominator:
                return K(Fraction(n, d))
        a = _app("sqrt", (x,))
        if a.id not in _axdone:
            _axdone.add(a.id)
            add_axioms(a, [ge(A(a))])
        return A(a)
    if name == "copysign":
        if is_int(args[0]) and cs[0] is not None:
            k = abs(cs[0])
            a = _app("sign", (args[1],), True, dom=(-1, 1))
            return A(a).scale(k)
        return A(_app("copysign", args))
    if name in ("sin", "cos", "tan"):
        if cs[0] == 0:
            return ONE if name == "cos" else ZERO
        a = _app(name, (x,))
        return A(a)
    if name == "idiv":
        if cs[0] is not None and cs[1]:
            q = abs(cs[0]) // abs(cs[1])
            return K(q if (cs[0] < 0) == (cs[1] < 0) else -q)
        if cs[1] == 1:
            return x
        return A(_app("idiv", args, True))
    if name in ("mod", "band", "bor", "bxor", "shl", "shr"):
        if all(c is not None for c in cs):
            a, b = cs
            if name == "mod" and b:
                return K(abs(a) % abs(b) * (1 if a >= 0 else -1))
            return K({"band": a & b, "bor": a | b, "bxor": a ^ b, "shl": a << b if b >= 0 else 0,
                      "shr": a >> b if b >= 0 else 0}.get(name, 0))
        a = _app(name, args, True)
        if a.id not in _axdone:
            _axdone.add(a.id)
            y = A(a)
            if name == "mod" and cs[1]:
                add_axioms(a, [gt(K(abs(cs[1])) - y), gt(K(abs(cs[1])) + y)])
            if name == "band" and cs[1] is not None and cs[1] >= 0:
                add_axioms(a, [ge(y), ge(K(cs[1]) - y)])
            elif name == "band" and cs[0] is not None and cs[0] >= 0:
                add_axioms(a, [ge(y), ge(K(cs[0]) - y)])
        return A(a)
    return A(_app(name, args))


def _split_int(x):
    ip, rest = {}, {}
    for m, c in x.t.items():
        if isinstance(c, int) and P.mono_val(m) == 0:
            ip[m] = c
        else:
            rest[m] = c
    return Poly(ip), Poly(rest)


def _rnd(name, v):
    import math
    if name == "floor":
        return math.floor(v)
    if name == "ceil":
        return math.ceil(v)
    if name == "trunc":
        return math.trunc(v)
    return math.floor(v + Fraction(1, 2)) if v >= 0 else math.ceil(v - Fraction(1, 2))


def _rebuild(at, args):
    if at.name == "den":
        q = args[0].inv()
        return A(atom("app", "divzero", args)) if q is None else _inv2(args[0])
    if at.name in ("round", "floor", "ceil", "trunc", "abs", "min", "max", "sqrt", "sin", "cos", "tan",
                   "idiv", "mod", "band", "bor", "bxor", "shl", "shr"):
        return mk(at.name, *args)
    if at.name == "sign":
        return mk("copysign", ONE, *args)
    return A(atom(at.kind, at.name, args, at.isint, at.ht, at.dom, at.dim))


def _inv2(p):
    # value of the 'den' atom itself (its argument)
    if len(p.t) == 1 or p.cval() is not None:
        return p
    lead = min(p.t, key=P.mono_order)
    k = p.t[lead]
    q = p.scale(Fraction(1) / k)
    return A(atom("app", "den", (q,))).scale(k)


P.REBUILD["app"] = _rebuild


def div(x, y):
    c = y.cval()
    if c is not None:
        if c == 0:
            return A(_app("divzero", (x,)))
        return x.scale(P._norm(Fraction(1) / c))
    i = y.inv()
    return x * i


def fold(fun, v):
    return fun(v)


class Interp:
    def __init__(self, prog, model):
        self.prog = prog
        self.model = model
        model.ip_ = self
        self.cheap = 0             # inside a cheap discovery pass of an outer loop
        self.loopobjs = []
        self.loopstack = []
        self.rec = 1              # recording depth (events count when > 0)
        self.guard = 0            # >0: forks raise Abandon
        self.nounroll = set()
        self.strpos = {}      # atom -> (string, part, offset)
        self.hint = {}
        self.fstack = []
        self.ntemp = 0
        self.opaque = {}          # qualified name -> handler(ip, st, fd, argvals, loc) or None
        self.stats = {"paths": 0, "loops": set(), "calls": set(), "passes": 0, "stmts": set(), "forks": 0, "nested": {}}
        self.maxstates = 2000000
        self.nstates = 0

    # ------------------------------------------------------------ utilities
    def loc(self, e):
        f = self.fstack[-1] if self.fstack else None
        if isinstance(e, dict) and "line" in e and "file" in e:
            return (e["file"], e["line"])
        return (f["file"] if f else "?", e.get("l", 0) if isinstance(e, dict) else 0)

    def broken(self, msg, e=None):
        raise Broken("%s at %s:%s" % ((msg,) + self.loc(e or {})))

    def emit(self, st, kind, e, **d):
        st.seg = st.seg + (Ev(kind, self.loc(e) if isinstance(e, dict) else e, **d),)

    def branch(self, st, b, e=None):
        """-> (true state or None, false state or None)"""
        if st.facts.dead:
            return None, None
        v = st.facts.decide(b)
        if v is True:
            return st, None
        if v is False:
            return None, st
        if self.guard:
            self.guardn -= 1
            if self.guardn < 0:
                raise Abandon()
        self.nstates += 1
        self.stats["forks"] += 1
        if self.nstates > self.maxstates:
            raise Broken("too many paths at %s:%s" % self.loc(e or {}))
        s2 = st.copy()
        okt = st.facts.assume(b)
        okf = s2.facts.assume(Not(b))
        if e is not None:
            f, l = self.loc(e)
            st.trace = st.trace + ((f, l, "+"),)
            s2.trace = s2.trace + ((f, l, "-"),)
        return (st if okt and not st.facts.dead else None), (s2 if okf and not s2.facts.dead else None)

    def truth(self, v, e=None):
        if isinstance(v, Bx):
            return v
        if isinstance(v, Poly):
            return ne(v)
        if isinstance(v, Ptr):
            return F if v.lv is None else T
        if isinstance(v, Opaque):
            a = atom("opq", repr(v), (), True, dom=(0, 1))
            return ne(A(a))
        if v is UNINIT:
            self.model.uninit(self, e)
            return ne(A(fresh("uninit", isint=True, dom=(0, 1))))
        self.broken("condition on %r" % (v,), e)

    def num(self, st, v, e=None):
        """-> list of (st, Poly)"""
        if isinstance(v, Poly):
            return [(st, v)]
        if isinstance(v, Bx):
            if v.op == "T":
                return [(st, ONE)]
            if v.op == "F":
                return [(st, ZERO)]
            if v.op == "ne":
                a = v.a.as_atom()
                if a is not None and a.dom == (0, 1):
                    return [(st, v.a)]
            t, f = self.branch(st, v, e)
            out = []
            if t:
                out.append((t, ONE))
            if f:
                out.append((f, ZERO))
            return out
        if v is UNINIT:
            self.model.uninit(self, e)
            return [(st, A(fresh("uninit")))]
        if isinstance(v, Opaque):
            return [(st, A(atom("opq", repr(v), ())))]
        self.broken("number expected, got %r" % (v,), e)

    # ------------------------------------------------------------ memory
    def resolve(self, st, lv):
        """follow reference variables at the root"""
        n = 0
        while True:
            v = st.store.get(lv.root)
            if isinstance(v, RefV):
                lv = LV(v.lv.root, v.lv.path + lv.path, v.lv.gens)
                n += 1
                if n > 20:
                    self.broken("reference cycle")
            else:
                return lv

    def rows(self, perm, key, st=None):
        """element of a permuted table at index key: atoms + fact"""
        n = len(perm.rows)
        if self.model.bounds and st is not None:
            self.model.nacc += 1
            if not self.model.within(st, key, K(n)) and not st.facts.dead:
                self.model.outside(self, st, key, K(n), "table")
        r0 = perm.rows[0]
        if isinstance(r0, VList):
            m = len(r0.items)
            if any(not isinstance(r, VList) or len(r.items) != m for r in perm.rows):
                self.broken("permuted table of unequal rows")
            ats = []
            for c in range(m):
                vals = [r.items[c] for r in perm.rows]
                isi = all(isinstance(v, Poly) and is_int(v) for v in vals)
                ats.append(A(atom("tab", perm.ver, (key, K(c)), isi)))
            clause = Or(*[And(*[eq(a - v) for a, v in zip(ats, r.items)]) for r in perm.rows])
            return VList(ats, r0.et), clause
        if isinstance(r0, Poly):
            a = A(atom("tab", perm.ver, (key,), all(is_int(v) for v in perm.rows)))
            if n > 16:
                return a, None
            return a, Or(*[eq(a - v) for v in perm.rows])
        if isinstance(r0, Struct):
            fs, cl = {}, []
            for k in r0.f:
                vals = [r.f[k] for r in perm.rows]
                if not all(isinstance(v, Poly) for v in vals):
                    self.broken("permuted structs")
                fs[k] = A(atom("tab", perm.ver + k, (key,), all(is_int(v) for v in vals)))
            for r in perm.rows:
                cl.append(And(*[eq(fs[k] - r.f[k]) for k in r0.f]))
            return Struct(r0.name, fs), Or(*cl)
        self.broken("permuted table of %r" % (r0,))

    def keyeq(self, st, k1, k2):
        """equality of two keys: True / False / Bx undecided"""
        cs = []
        for a, b in zip(k1, k2):
            if isinstance(b, Rng):
                cs.append(And(ge(a - b.lo), gt(b.hi - a)))
                continue
            d = st.facts.norm(a - b)
            c = d.cval()
            if c is not None:
                if c != 0:
                    return False
                continue
            cs.append(eq(d))
        if not cs:
            return True
        b = And(*cs)
        v = st.facts.decide(b)
        if v is not None:
            return v
        if st.facts.prove(Not(b), 1):
            return False
        if st.facts.prove(b, 1):
            return True
        return b

    def walk(self, st, lv):
        """-> list of (st, holder value, index into path, lv) where the holder
        is a non-aggregate / Sym that consumes the rest"""
        lv = self.resolve(st, lv)
        if lv.root not in st.store:
            self.broken("unknown object %r" % (lv.root,))
        out = []
        work = [(st, st.store[lv.root], 0, lv.path)]
        while work:
            s, v, i, path = work.pop()
            while i < len(path):
                k, p = path[i]
                if isinstance(v, RefV):
                    v2 = LV(v.lv.root, v.lv.path + tuple(path[i:]))
                    out.extend(self.walk(s, v2))
                    v = None
                    break
                if isinstance(v, Struct):
                    if p not in v.f:
                        self.broken("no field %s in %s" % (p, v.name))
                    v = v.f[p]
                    i += 1
                elif isinstance(v, VList):
                    if k != "i":
                        self.broken("field of a list")
                    q = s.facts.norm(p)
                    c = q.cval()
                    if c is None:
                        n = len(v.items)
                        if self.model.foldlists and n:
                            if self.model.bounds:
                                self.model.nacc += 1
                                if not self.model.within(s, q, K(n)) and not s.facts.dead:
                                    self.model.outside(self, s, q, K(n), "list")
                            v = self.model.folded(v.items)
                            i += 1
                            continue
                        if n > 64 or n == 0:
                            self.broken("symbolic index %s into a list of %d" % (q, n))
                        cur = s
                        for j in range(n):
                            if cur is None:
                                break
                            t, f = self.branch(cur, eq(q - K(j)))
                            if t is not None:
                                np = path[:i] + (("i", K(j)),) + path[i + 1:]
                                work.append((t, v.items[j], i + 1, np))
                            cur = f
                        if cur is not None and self.model.bounds and not cur.facts.dead:
                            self.model.outside(self, cur, q, K(n), "list")
                        v = None
                        break
                    if self.model.bounds:
                        self.model.nacc += 1
                    if not (0 <= c < len(v.items)):
                        self.model.oob(self, s, c, len(v.items))
                        v = Opaque("oob")
                        i = len(path)
                        break
                    path = path[:i] + (("i", K(c)),) + path[i + 1:]
                    v = v.items[c]
                    i += 1
                else:
                    break
            if v is not None:
                out.append((s, v, i, LV(lv.root, path, lv.gens)))
        return out

    def load(self, st, lv, e=None):
        """-> list of (st, value)"""
        out = []
        for s, v, i, l in self.walk(st, lv):
            path = l.path
            if isinstance(v, RefV):
                out.extend(self.load(s, v.lv, e))
            elif isinstance(v, Opaque) and v.tag == "oob":
                t = strip_ref(ptype(e["t"])) if isinstance(e, dict) and e.get("t") else ("float",)
                out.append((s, A(fresh("oob", isint=t[0] == "int")) if t[0] in ("int", "float") else ne(A(fresh("oob", isint=True))) if t[0] == "bool" else v))
            elif i == len(path):
                out.append((s, v))
            elif isinstance(v, Sym):
                out.extend(self.symload(s, l, i, v, path[i:], e))
            elif isinstance(v, Perm):
                key = s.facts.norm(path[i][1])
                row, cl = self.rows(v, key, s)
                if cl is not None and not s.facts.assume(cl):
                    continue
                if cl is not None:
                    s.x["tabs"] = s.x.get("tabs", frozenset()) | {cl}
                rest = path[i + 1:]
                val = row
                for k, p in rest:
                    if isinstance(val, Struct):
                        val = val.f[p]
                    elif isinstance(val, VList):
                        c = s.facts.norm(p).cval()
                        if c is None or not 0 <= c < len(val.items):
                            self.broken("index into a permuted row", e)
                        val = val.items[c]
                    else:
                        self.broken("path into permuted row", e)
                out.append((s, val))
            elif isinstance(v, Str):
                c = s.facts.norm(path[i][1]).cval()
                t = v.const()
                if t is not None and c is not None and 0 <= c < len(t):
                    out.append((s, K(ord(t[c]))))
                elif t is not None and c is not None and c == len(t):
                    out.append((s, ZERO))
                elif c is not None and v.parts and isinstance(v.parts[0], str) and 0 <= c < len(v.parts[0]):
                    out.append((s, K(ord(v.parts[0][c]))))
                else:
                    out.append((s, A(atom("app", "strchar:" + repr(v), (path[i][1],), True))))
            elif isinstance(v, Opaque):
                out.append((s, self.model.opaque_member(self, s, v, path[i:], e)))
            elif v is UNINIT:
                self.model.uninit(self, e)
                out.append((s, A(fresh("uninit"))))
            else:
                self.broken("path %r into %r" % (path[i:], v), e)
        return out

    def symload(self, st, l, i, sym, rest, e):
        d = sym.depth
        key = []
        for k, p in rest[:d]:
            if k != "i":
                self.broken("field of an array", e)
            key.append(st.facts.norm(p))
        if len(key) < d:
            return [(st, Opaque("row", sym.name, tuple(key)))]
        tail = rest[d:]
        key = tuple(key)
        leaf = sym.leaf
        if leaf[0] == "fields":
            shape = leaf[2]        # ('rec',name) or ('list',)
            if not tail:
                res = [(st, {})]
                for f in leaf[1]:
                    nxt = []
                    for s, dct in res:
                        for s2, v in self.symget(s, l, i, key, f, e):
                            d2 = dict(dct)
                            d2[f] = v
                            nxt.append((s2, d2))
                    res = nxt
                if shape[0] == "list":
                    return [(s, VList([dct[f] for f in leaf[1]])) for s, dct in res]
                return [(s, Struct(shape[1], dct)) for s, dct in res]
            k, p = tail[0]
            if k == "f":
                return self.symget(st, l, i, key, p, e)
            c = st.facts.norm(p).cval()
            if c is not None:
                if str(c) not in leaf[1]:
                    self.model.oob(self, st, c, len(leaf[1]))
                    return [(st, A(fresh("oob")))]
                return self.symget(st, l, i, key, str(c), e)
            out = []
            cur = st
            for f in leaf[1]:
                if cur is None:
                    break
                t, cur = self.branch(cur, eq(p - K(int(f))))
                if t is not None:
                    out.extend(self.symget(t, l, i, key, f, e))
            return out
        return self.symget(st, l, i, key, "", e)

    def getat(self, st, l, i):
        """value at prefix path (no forks: prefix is concrete)"""
        v = st.store[l.root]
        for k, p in l.path[:i]:
            if isinstance(v, Struct):
                v = v.f[p]
            elif isinstance(v, VList):
                v = v.items[p.cval()]
            else:
                self.broken("prefix")
        return v

    def symget(self, st, l, i, key, field, e):
        out = []
        work = [(st, None)]
        sym0 = self.getat(st, l, i)
        if self.model.bounds and sym0.size:
            self.model.inside(self, st, sym0, key, e)
        while work:
            s, pos = work.pop()
            sym = self.getat(s, l, i)
            n = len(sym.log) if pos is None else pos
            done = False
            kk = tuple(s.facts.norm(k) for k in key)
            while n > 0:
                n -= 1
                ek, ef, ev = sym.log[n]
                if ef != field and ef != "*":
                    continue
                r = self.keyeq(s, kk, ek)
                if r is False:
                    continue
                val = ev if ef != "*" else None
                if r is True:
                    if val is None:
                        val = self.model.star(self, s, sym, field, kk, n)
                    out.append((s, s.facts.norm(val) if isinstance(val, Poly) else val))
                    done = True
                    break
                t, f = self.branch(s, r, e)
                if t is not None:
                    v2 = val if val is not None else self.model.star(self, t, sym, field, kk, n)
                    out.append((t, t.facts.norm(v2) if isinstance(v2, Poly) else v2))
                if f is None:
                    done = True
                    break
                s = f
            if done:
                continue
            out.extend(self.base(s, l, i, sym, kk, field, e))
        return out

    def base(self, st, l, i, sym, key, field, e):
        if sym.fill is not None and field in sym.fill:
            return [(st, sym.fill[field])]
        if sym.pats is not None:
            r = self.patread(st, l, i, sym, key, field)
            if r is not None:
                return r
        return self.model.base(self, st, sym, key, field, e)

    def cell(self, sym, key, field, leaft, ht=False, dom=None):
        name = "%s%s@%s" % (sym.name, "." + field if field else "", sym.ep[field])
        return atom("cell", name, tuple(key), leaft[0] in ("int", "bool"), ht, dom if dom else ((0, 1) if leaft[0] == "bool" else None))

    def patread(self, st, l, i, sym, key, field):
        """element of a locally built vector: instantiate the push patterns"""
        k = (key,)
        if k in sym.reads:
            return [(st, sym.reads[k][field])]
        out = []
        pats = sym.pats
        for n, (vals, facts, bound) in enumerate(pats):
            s = st.copy() if n + 1 < len(pats) else st
            if n + 1 < len(pats) and self.guard:
                raise Abandon()
            sub = {}
            for b in bound:
                at = ATOMS[b]
                sub[b] = A(atom("inst", at.name + "|" + sym.name + "|%d" % n, tuple(key), at.isint, at.ht, at.dom))
            v2 = {}
            for f, v in vals.items():
                v2[f] = subst(v, sub) if isinstance(v, Poly) else v
            ok = True
            for b in facts:
                if not s.facts.assume(bsubst(b, sub)):
                    ok = False
                    break
            if not ok or s.facts.dead:
                continue
            v2 = {f: s.facts.norm(v) if isinstance(v, Poly) else v for f, v in v2.items()}
            cur = self.getat(s, l, i)
            rd = dict(cur.reads)
            rd[k] = v2
            self.putat(s, l, i, cur.rep(reads=rd))
            out.append((s, v2[field]))
        return out

    def putat(self, st, l, i, val):
        path = l.path[:i]

        def upd(v, j):
            if j == len(path):
                return val
            k, p = path[j]
            if isinstance(v, Struct):
                return v.set(p, upd(v.f[p], j + 1))
            if isinstance(v, VList):
                c = p.cval()
                return v.set(c, upd(v.items[c], j + 1))
            self.broken("store path")
        st.store[l.root] = upd(st.store[l.root], 0)

    def store(self, st, lv, val, e=None):
        """-> list of states"""
        out = []
        for s, v, i, l in self.walk(st, lv):
            path = l.path
            if isinstance(v, RefV):
                out.extend(self.store(s, v.lv, val, e))
                continue
            if isinstance(v, Opaque) and v.tag == "oob":
                out.append(s)
                continue
            if i == len(path):
                if isinstance(v, (VList, Perm, Sym)) and isinstance(val, (VList, Perm, Sym)):
                    val2 = self.regen(v, val)
                    self.model.on_assign(self, s, l, v, val2, e)
                else:
                    val2 = val
                    if not isinstance(v, (Struct, VList, Sym)):
                        self.model.on_scalar(self, s, l, v, val2, e)
                    else:
                        self.model.on_assign(self, s, l, v, val2, e)
                self.putat(s, l, i, val2)
                out.append(s)
            elif isinstance(v, Sym):
                out.extend(self.symstore(s, l, i, v, path[i:], val, e))
            elif isinstance(v, Perm):
                self.broken("store into a permuted table", e)
            elif isinstance(v, Opaque):
                out.append(s)
            else:
                self.broken("store into %r" % (v,), e)
        return out

    def regen(self, old, new):
        g = old.gen + 1
        if isinstance(new, VList):
            return VList(new.items, new.et or old.et, g)
        if isinstance(new, Perm):
            return Perm(new.rows, new.ver, new.et, g)
        return new.rep(gen=g)

    def symstore(self, st, l, i, sym, rest, val, e):
        d = sym.depth
        key = tuple(st.facts.norm(p) for k, p in rest[:d])
        tail = rest[d:]
        if len(key) < d:
            # assignment of a whole row
            if isinstance(val, Sym) and val.depth == d - len(key) and val.fill is not None and not val.log:
                dims = val.size
                k2 = key + tuple(Rng(ZERO, x) for x in dims)
                st2 = self.putlog(st, l, i, k2, "", val.fill[""], e)
                return [st2]
            self.broken("store of a whole row", e)
        leaf = sym.leaf
        if leaf[0] == "fields" and not tail:
            if isinstance(val, Struct):
                items = [(f, val.f[f]) for f in leaf[1]]
            elif isinstance(val, VList):
                items = [(f, val.items[int(f)]) for f in leaf[1]]
            else:
                self.broken("store of %r into an element" % (val,), e)
            sts = [st]
            for f, x in items:
                nxt = []
                for s in sts:
                    nxt.extend(self.put1(s, l, i, key, f, x, e))
                sts = nxt
            return sts
        field = ""
        if tail:
            k, p = tail[0]
            if k == "f":
                field = p
            else:
                c = st.facts.norm(p).cval()
                if c is None:
                    self.broken("symbolic component", e)
                field = str(c)
        return self.put1(st, l, i, key, field, val, e)

    def put1(self, st, l, i, key, field, val, e):
        out = []
        for s, old in self.symget(st, l, i, key, field, e):
            v = s.facts.norm(val) if isinstance(val, Poly) else val
            if isinstance(v, Bx):
                self_sym = self.getat(s, l, i)
            s = self.putlog(s, l, i, key, field, v, e)
            self.model.on_write(self, s, l, i, key, field, old, v, e)
            out.append(s)
        return out

    def putlog(self, s, l, i, key, field, v, e):
        sym = self.getat(s, l, i)
        key = tuple(k if isinstance(k, Rng) else s.facts.norm(k) for k in key)
        log = tuple(x for x in sym.log if not (x[0] == key and x[1] == field)) + ((key, field, v),)
        self.putat(s, l, i, sym.rep(log=log))
        return s

    # ------------------------------------------------------------ vectors
    def sizeof(self, st, lv, e=None):
        """-> list of (st, Poly)"""
        out = []
        for s, v, i, l in self.walk(st, lv):
            if isinstance(v, RefV):
                out.extend(self.sizeof(s, v.lv, e))
            elif i == len(l.path):
                out.append((s, self.vsize(v, e)))
            elif isinstance(v, Sym):
                n = len(l.path) - i
                if n < v.depth:
                    out.append((s, v.size[n]))
                elif v.leaf[0] == "fields" and v.leaf[2][0] == "list" and n == v.depth:
                    out.append((s, K(len(v.leaf[1]))))
                else:
                    self.broken("size", e)
            elif isinstance(v, Perm) and len(l.path) - i == 1 and isinstance(v.rows[0], VList):
                out.append((s, K(len(v.rows[0].items))))
            else:
                self.broken("size of %r" % (v,), e)
        return out

    def vsize(self, v, e=None):
        if isinstance(v, VList):
            return K(len(v.items))
        if isinstance(v, Perm):
            return K(len(v.rows))
        if isinstance(v, Sym):
            return v.size[0]
        if isinstance(v, Str):
            t = v.const()
            if t is not None:
                return K(len(t))
            a = atom("app", "strlen:" + repr(v), (), True)
            add_axioms(a, [ge(A(a))])
            return A(a)
        if isinstance(v, Opaque):
            a = atom("app", "len:" + repr(v), (), True)
            add_axioms(a, [ge(A(a))])
            return A(a)
        self.broken("size of %r" % (v,), e)

    def shape(self, elem):
        """leaf description of an element value"""
        if isinstance(elem, Poly):
            return (("int",) if is_int(elem) else ("float",))
        if isinstance(elem, Bx):
            return ("bool",)
        if isinstance(elem, VList):
            if all(isinstance(x, Poly) for x in elem.items):
                return ("fields", tuple(str(j) for j in range(len(elem.items))), ("list",),
                        {str(j): self.shape(x) for j, x in enumerate(elem.items)})
        if isinstance(elem, Struct):
            if all(isinstance(x, (Poly, Bx)) for x in elem.f.values()):
                return ("fields", tuple(elem.f), ("rec", elem.name), {f: self.fshape(elem.name, f) for f in elem.f})
        return None

    def fshape(self, rec, f):
        for x in self.prog.records.get(rec, {}).get("fields", []):
            if x["n"] == f:
                return ptype(x["t"])
        return ("float",)

    def leaf_t(self, leaf, field):
        if leaf[0] == "fields":
            return leaf[3][field]
        return leaf

    def push(self, st, lv, val, e):
        out = []
        for s, v, i, l in self.walk(st, lv):
            if isinstance(v, RefV):
                out.extend(self.push(s, v.lv, val, e))
                continue
            if i != len(l.path):
                if isinstance(v, (Sym, Perm)):
                    self.broken("push into a row", e)
                out.append(s)
                continue
            if isinstance(v, VList):
                self.model.on_push(self, s, l, v, val, e)
                self.putat(s, l, i, VList(v.items + (val,), v.et, v.gen + 1))
                out.append(s)
            elif isinstance(v, Sym):
                self.model.on_push(self, s, l, v, val, e)
                key = (v.size[0],)
                if v.leaf[0] == "fields":
                    src = val.f if isinstance(val, Struct) else {str(j): x for j, x in enumerate(val.items)}
                    ents = tuple((key, f, src[f]) for f in v.leaf[1])
                else:
                    ents = ((key, "", val),)
                sm = v.sum
                if sm is not None:
                    sm = s.facts.norm(sm + src[self.model.sumfield(v)])
                self.putat(s, l, i, v.rep(log=v.log + ents, size=(s.facts.norm(v.size[0] + ONE),) + v.size[1:],
                                          sum=sm, gen=v.gen + 1))
                out.append(s)
            elif isinstance(v, Perm):
                self.putat(s, l, i, Perm(v.rows + (val,), "p%d" % P.fresh_id(), v.et, v.gen + 1))
                out.append(s)
            elif isinstance(v, Opaque):
                out.append(s)
            else:
                self.broken("push into %r" % (v,), e)
        return out

    def swap(self, st, l1, l2, e):
        """std::swap"""
        l1, l2 = self.resolve(st, l1), self.resolve(st, l2)
        # elements of the same container at unknown positions
        if (l1.root == l2.root and len(l1.path) == len(l2.path) and l1.path and l1.path[:-1] == l2.path[:-1]
                and l1.path[-1][0] == "i"):
            res = []
            base = LV(l1.root, l1.path[:-1])
            for s, v, i, l in self.walk(st, base):
                a, b = s.facts.norm(l1.path[-1][1]), s.facts.norm(l2.path[-1][1])
                if isinstance(v, VList) and i == len(l.path):
                    if a.cval() is not None and b.cval() is not None:
                        res.extend(self.swap2(s, l1, l2, e))
                        continue
                    n = len(v.items)
                    self.chkidx(s, a, n, e)
                    self.chkidx(s, b, n, e)
                    self.emit(s, "swap", e, lv=l, a=a, b=b, n=K(n))
                    self.putat(s, l, i, Perm(v.items, "p%d" % P.fresh_id(), v.et, v.gen))
                    res.append(s)
                elif isinstance(v, Perm) and i == len(l.path):
                    self.chkidx(s, a, len(v.rows), e)
                    self.chkidx(s, b, len(v.rows), e)
                    self.emit(s, "swap", e, lv=l, a=a, b=b, n=K(len(v.rows)))
                    self.putat(s, l, i, Perm(v.rows, "p%d" % P.fresh_id(), v.et, v.gen))
                    res.append(s)
                elif isinstance(v, Sym) and i == len(l.path) and v.depth == 1:
                    self.chkidx(s, a, v.size[0], e)
                    self.chkidx(s, b, v.size[0], e)
                    self.emit(s, "swap", e, lv=l, a=a, b=b, n=v.size[0])
                    self.putat(s, l, i, self.reorder(v))
                    res.append(s)
                else:
                    res.extend(self.swap2(s, l1, l2, e))
            return res
        return self.swap2(st, l1, l2, e)

    def reorder(self, v):
        return v.rep(ep={f: "o%d" % P.fresh_id() for f in v.ep}, log=(), reads={})

    def chkidx(self, st, a, n, e):
        n = K(n) if not isinstance(n, Poly) else n
        self.model.index(self, st, a, n, e)

    def swap2(self, st, l1, l2, e):
        out = []
        for s, v1 in self.load(st, l1, e):
            for s2, v2 in self.load(s, l2, e):
                for s3 in self.store(s2, l1, v2, e):
                    out.extend(self.store(s3, l2, v1, e))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.broken("expression kind %s" % e["k"], e)
        return m(e, st)

    def evs(self, es, st):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev_num(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            out.extend(self.num(s, v, e))
        return out

    def e_int(self, e, st):
        return [(st, K(e["v"]))]

    e_char = e_int

    def e_bool(self, e, st):
        return [(st, T if e["v"] else F)]

    def e_flt(self, e, st):
        if "inf" in str(e["v"]) or abs(float(e["v"])) > 1e30:
            return [(st, A(P.BIG) if float(e["v"]) > 0 else -A(P.BIG))]
        return [(st, K(P._norm(Fraction(str(e["v"])))))]

    def e_str(self, e, st):
        return [(st, Str([e["v"]]))]

    def e_fn(self, e, st):
        return [(st, Opaque("fn", e.get("n") or e.get("fn")))]

    def e_null(self, e, st):
        return [(st, Ptr(None))]

    def e_this(self, e, st):
        return [(st, Ptr(st.x.get("this")))]

    def e_zero(self, e, st):
        return [(st, self.zero(ptype(e["t"])))] if "t" in e else [(st, ZERO)]

    def e_srcloc(self, e, st):
        return [(st, Opaque("srcloc"))]

    def zero(self, t):
        """value-initialised object"""
        t = strip_ref(t)
        k = t[0]
        if k in ("int", "float"):
            return ZERO
        if k == "bool":
            return F
        if k == "ptr":
            return Ptr(None)
        if k == "vec":
            return VList((), t[1])
        if k == "arr":
            return VList([self.zero(t[1]) for _ in range(t[2])], t[1])
        if k == "str":
            return Str([""])
        if k == "tuple":
            return VList([self.zero(x) for x in t[1]])
        if k == "rec":
            r = self.prog.records.get(t[1])
            if r is not None:
                return Struct(t[1], {f["n"]: self.zero(ptype(f["t"])) for f in self.allfields(t[1])})
        return Opaque("obj", t)

    def uninit(self, t):
        t = strip_ref(t)
        k = t[0]
        if k in ("int", "float", "bool", "ptr"):
            return UNINIT
        if k == "arr":
            return VList([self.uninit(t[1]) for _ in range(t[2])], t[1])
        if k == "rec":
            r = self.prog.records.get(t[1])
            if r is not None:
                return Struct(t[1], {f["n"]: self.uninit(ptype(f["t"])) for f in self.allfields(t[1])})
        if k == "tuple":
            return VList([self.zero(x) for x in t[1]])
        return self.zero(t)

    def allfields(self, name):
        r = self.prog.records.get(name)
        if r is None:
            return []
        out = []
        for b in r.get("bases", []):
            bn = b if isinstance(b, str) else b.get("n") or b.get("name") or b.get("t")
            out += self.allfields(bn)
        return out + r["fields"]

    def root(self, e, st):
        if e.get("static"):
            return ("s", e["n"], e["id"])
        return ("v", st.x.get("frame", 0), e["id"])

    # lvalues
    def lv(self, e, st):
        """-> list of (st, LV)"""
        k = e["k"]
        if k == "var":
            r = self.findvar(e, st)
            v = st.store.get(r)
            if isinstance(v, RefV):
                if v.lv.gens:
                    self.chkgen(st, v.lv, e)
                self.chkfreed(st, v.lv, e)
                return [(st, v.lv)]
            return [(st, LV(r))]
        if k == "gvar":
            r = ("g", e["n"])
            if r not in st.store:
                st.store[r] = self.model.gvar(self, e)
            v = st.store[r]
            return [(st, v.lv if isinstance(v, RefV) else LV(r))]
        if k == "mem":
            out = []
            if e.get("arrow") and e["b"]["k"] == "opcall" and e["b"].get("op") == "->":
                for s, l in self.lv(e["b"], st):
                    out.append((s, l.f(e["n"])))
            elif e.get("arrow"):
                for s, v in self.ev(e["b"], st):
                    if isinstance(v, Ptr) and v.lv is not None:
                        if v.lv.gens:
                            self.chkgen(s, v.lv, e)
                        self.chkfreed(s, v.lv, e)
                        out.append((s, v.lv.f(e["n"])))
                    elif isinstance(v, Iter):
                        if v.lv.gens:
                            self.chkgen(s, v.lv, e)
                        out.append((s, LV(v.lv.root, v.lv.path).i(v.idx).f(e["n"])))
                    elif isinstance(v, Opaque):
                        out.append((s, self.temp(s, v).f(e["n"])))
                    else:
                        self.broken("-> on %r" % (v,), e)
            elif e["n"] in ("first", "second") and strip_ref(ptype(e["b"].get("t") or "?"))[0] == "tuple":
                for s, l in self.lv(e["b"], st):
                    out.append((s, l.i(K(0 if e["n"] == "first" else 1))))
            else:
                for s, l in self.lv(e["b"], st):
                    out.append((s, l.f(e["n"])))
            return [(s, self.derefmem(s, l)) for s, l in out]
        if k == "idx":
            out = []
            if self.itertype(e["b"]):
                for s, v in self.ev(e["b"], st):
                    if isinstance(v, Iter):
                        out.extend(self.iterat(s, v, e["i"], e))
                    else:
                        out = None
                        break
                if out is not None:
                    return out
                out = []
            for s, l in self.lvb(e["b"], st):
                for s2, p in self.ev_num(e["i"], s):
                    self.model.subscript(self, s2, l, p, e)
                    out.append((s2, l.i(s2.facts.norm(p))))
            return out
        if k == "un":
            op = e["op"]
            if op == "*":
                out = []
                for s, v in self.ev(e["e"], st):
                    if isinstance(v, Ptr) and v.lv is not None:
                        if v.lv.gens:
                            self.chkgen(s, v.lv, e)
                        self.chkfreed(s, v.lv, e)
                        out.append((s, v.lv))
                    elif isinstance(v, Iter):
                        if v.lv.gens:
                            self.chkgen(s, v.lv, e)
                        out.append((s, LV(v.lv.root, v.lv.path).i(v.idx)))
                    elif isinstance(v, Opaque):
                        out.append((s, self.temp(s, v)))
                    else:
                        self.broken("dereference of %r" % (v,), e)
                return out
            if op in ("++", "--"):
                return self.incdec(e, st, True)
        if k == "asg":
            return self.asg(e, st)
        if k == "cond":
            out = []
            for s, c in self.ev(e["c"], st):
                t, f = self.branch(s, self.truth(c, e), e)
                if t is not None:
                    out.extend(self.lv(e["a"], t))
                if f is not None:
                    out.extend(self.lv(e["b"], f))
            return out
        if k == "cast":
            return self.lv(e["e"], st)
        if k in ("opcall", "mcall", "call"):
            r = []
            for s, v in self.ev_any(e, st):
                if isinstance(v, LV):
                    r.append((s, v))
                else:
                    r.append((s, self.temp(s, v)))
            return r
        out = []
        for s, v in self.ev(e, st):
            out.append((s, self.temp(s, v)))
        return out

    def itertype(self, e):
        t = e.get("t") or ""
        return "__normal_iterator" in t or e["k"] in ("var", "mem") and ptype(t)[0] == "ptr"

    def iterat(self, st, v, i, e):
        if v.lv.gens:
            self.chkgen(st, v.lv, e)
        return [(s, LV(v.lv.root, v.lv.path).i(s.facts.norm(v.idx + p))) for s, p in self.ev_num(i, st)]

    def derefmem(self, st, l):
        # reference members
        try:
            w = self.walk(st, l)
        except Broken:
            return l
        if len(w) == 1 and isinstance(w[0][1], RefV) and w[0][2] == len(w[0][3].path):
            return w[0][1].lv
        return l

    def lvb(self, e, st):
        """lvalue of an indexable base (pointer values are followed)"""
        t = e.get("t")
        if e["k"] in ("var", "mem", "gvar", "cond", "call", "mcall") and t is not None and ptype(t)[0] == "ptr":
            out = []
            for s, v in self.ev(e, st):
                if isinstance(v, Ptr) and v.lv is not None:
                    self.chkfreed(s, v.lv, e)
                    out.append((s, v.lv))
                elif isinstance(v, Str) or isinstance(v, Opaque):
                    out.append((s, self.temp(s, v)))
                else:
                    out.extend(self.lv(e, s))
            return out
        return self.lv(e, st)

    def findvar(self, e, st):
        if e.get("static"):
            return ("s", e["n"], e["id"])
        fr = st.x.get("frame", 0)
        r = ("v", fr, e["id"])
        if r in st.store:
            return r
        env = st.x.get("env")
        if env is not None and e["id"] in env:
            return env[e["id"]]
        return r

    def temp(self, st, v):
        self.ntemp += 1
        r = ("t", st.x.get("frame", 0), self.ntemp)
        st.store[r] = v
        return LV(r)

    def chkgen(self, st, lv, e):
        """a reference / pointer into a container that was reallocated since"""
        for path, gen in lv.gens or ():
            try:
                w = self.walk(st, LV(lv.root, path))
            except Broken:
                continue
            for s, v, i, l in w:
                if i == len(l.path) and isinstance(v, (VList, Sym, Perm)) and v.gen != gen:
                    self.model.dangling(self, st, lv, e)
                    return

    def chkfreed(self, st, lv, e):
        if lv.root in st.x.get("freed", ()):
            self.model.dangling(self, st, lv, e)

    def withgens(self, st, lv):
        """attach container generations to a reference to an element"""
        lv = self.resolve(st, lv)
        gens = []
        v = st.store.get(lv.root)
        for j, (k, p) in enumerate(lv.path):
            if isinstance(v, RefV) or v is None:
                break
            if isinstance(v, Struct):
                v = v.f.get(p)
            elif isinstance(v, VList):
                if v.et is not None and not isinstance(v.et, str):
                    gens.append((lv.path[:j], v.gen))
                c = p.cval() if isinstance(p, Poly) else None
                v = v.items[c] if c is not None and 0 <= c < len(v.items) else None
            elif isinstance(v, (Sym, Perm)):
                gens.append((lv.path[:j], v.gen))
                break
            else:
                break
        return LV(lv.root, lv.path, tuple(gens) or None)

    def itgens(self, st, l):
        """an iterator remembers the generation of its container"""
        l = self.resolve(st, l)
        g = self.withgens(st, l.i(ZERO)).gens
        return LV(l.root, l.path, g)

    def rv(self, e, st):
        """load through the lvalue"""
        out = []
        for s, l in self.lv(e, st):
            out.extend(self.load1(s, l, e))
        return out

    def load1(self, s, l, e):
        out = []
        for s2, v in self.load(s, l, e):
            if v is UNINIT:
                self.model.uninit(self, e)
                t = ptype(e["t"]) if e.get("t") else ("float",)
                v = A(fresh("uninit", isint=t[0] in ("int", "bool")))
                if t[0] == "bool":
                    v = ne(v)
            elif isinstance(v, Poly):
                v = s2.facts.norm(v)
            out.append((s2, v))
        return out

    def e_var(self, e, st):
        # arrays/functions names evaluate to their value
        return self.rv(e, st)

    e_gvar = e_mem = e_var

    def e_idx(self, e, st):
        return self.rv(e, st)

    def e_un(self, e, st):
        op = e["op"]
        if op == "*":
            return self.rv(e, st)
        if op == "&":
            return [(s, Ptr(self.withgens(s, l))) for s, l in self.lv(e["e"], st)]
        if op in ("++", "--"):
            out = []
            for s, l in self.incdec(e, st, True):
                out.extend(self.load(s, l, e))
            return out
        if op in ("p++", "++p", "p--", "--p"):
            return self.incdec(e, st, False)
        if op == "!":
            return [(s, Not(self.truth(v, e))) for s, v in self.ev(e["e"], st)]
        if op == "-":
            return [(s, -p) for s, p in self.ev_num(e["e"], st)]
        if op == "+":
            return self.ev(e["e"], st)
        if op == "~":
            return [(s, -p - ONE) for s, p in self.ev_num(e["e"], st)]
        self.broken("unary %s" % op, e)

    def incdec(self, e, st, pre):
        d = ONE if "+" in e["op"] else -ONE
        out = []
        for s, l in self.lv(e["e"], st):
            for s2, v in self.load1(s, l, e):
                if isinstance(v, Iter):
                    nv = Iter(v.lv, v.idx + d)
                elif isinstance(v, Ptr):
                    nv = Ptr(self.ptradd(v.lv, d))
                else:
                    nv = v + d
                for s3 in self.store(s2, l, nv, e):
                    out.append((s3, l if pre else v))
        return out

    def ptradd(self, lv, d):
        if lv is None or not lv.path or lv.path[-1][0] != "i":
            self.broken("pointer arithmetic")
        return LV(lv.root, lv.path[:-1] + (("i", lv.path[-1][1] + d),), lv.gens)

    def arith(self, op, a, b, t, e):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if t[0] == "int":
                return mk("idiv", a, b)
            return div(a, b)
        if op == "%":
            return mk("mod", a, b)
        n = {"&": "band", "|": "bor", "^": "bxor", "<<": "shl", ">>": "shr"}.get(op)
        if n:
            return mk(n, a, b)
        self.broken("operator %s" % op, e)

    def haseffect(self, e):
        """conservative: may evaluation have side effects / need guarding?"""
        r = e.get("_eff")
        if r is None:
            k = e.get("k")
            r = False
            if k == "asg" or (k == "un" and ("+" in e["op"] * 2 and e["op"] in ("++", "--", "++p", "--p", "p++", "p--"))):
                r = True
            elif k in ("call", "mcall", "opcall") and e.get("user"):
                r = True
            elif k == "opcall" and e.get("lam"):
                r = True
            elif k in ("ctor", "new", "delete", "throw"):
                r = True
            else:
                for v in e.values():
                    if isinstance(v, dict) and "k" in v and self.haseffect(v):
                        r = True
                        break
                    if isinstance(v, list) and any(isinstance(x, dict) and "k" in x and self.haseffect(x) for x in v):
                        r = True
                        break
            e["_eff"] = r
        return r

    def e_bin(self, e, st):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, a in self.ev(e["a"], st):
                a = self.truth(a, e)
                v = s.facts.decide(a)
                if v is not None:
                    if v is (op == "||"):
                        out.append((s, T if v else F))
                        continue
                    for s2, b in self.ev(e["b"], s):
                        out.append((s2, self.truth(b, e)))
                    continue
                if self.haseffect(e["b"]):
                    t, f = self.branch(s, a, e)
                    go, stop = (t, f) if op == "&&" else (f, t)
                    if stop is not None:
                        out.append((stop, F if op == "&&" else T))
                    if go is not None:
                        for s2, b in self.ev(e["b"], go):
                            out.append((s2, self.truth(b, e)))
                    continue
                for s2, b in self.ev(e["b"], s):
                    b = self.truth(b, e)
                    out.append((s2, And(a, b) if op == "&&" else Or(a, b)))
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(e["a"], st):
                out.extend(self.ev(e["b"], s))
            return out
        out = []
        for s, (a, b) in self.evs([e["a"], e["b"]], st):
            out.extend(self.binop(s, op, a, b, ptype(e.get("t", "int")), e))
        return out

    def binop(self, s, op, a, b, t, e):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(s, op, a, b, e)
        if isinstance(a, (Iter, Ptr)) and isinstance(b, Poly) and op in "+-":
            d = b if op == "+" else -b
            if isinstance(a, Iter):
                return [(s, Iter(a.lv, a.idx + d))]
            return [(s, Ptr(self.ptradd(a.lv, d)))]
        if isinstance(a, Iter) and isinstance(b, Iter) and op == "-":
            return [(s, a.idx - b.idx)]
        if isinstance(a, Bx) and isinstance(b, Bx) and op in "&|" and t[0] in ("int", "bool"):
            return [(s, And(a, b) if op == "&" else Or(a, b))]
        out = []
        for s1, x in self.num(s, a, e):
            for s2, y in self.num(s1, b, e):
                out.append((s2, self.arith(op, x, y, t, e)))
        return out

    def compare(self, s, op, a, b, e):
        if isinstance(a, Iter) and isinstance(b, Iter):
            a, b = a.idx, b.idx
        if isinstance(a, (Ptr,)) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
                r = a.lv == b.lv
                return [(s, T if r == (op == "==") else F)]
            self.broken("pointer comparison", e)
        if isinstance(a, Bx) and isinstance(b, Bx) and op in ("==", "!="):
            if b.op in ("T", "F"):
                r = a if b.op == "T" else Not(a)
            elif a.op in ("T", "F"):
                r = b if a.op == "T" else Not(b)
            else:
                r = Or(And(a, b), And(Not(a), Not(b)))
            return [(s, r if op == "==" else Not(r))]
        if isinstance(a, Str) and isinstance(b, Str):
            x, y = a.const(), b.const()
            if x is not None and y is not None:
                r = x == y
            elif a == b:
                r = True
            else:
                return [(s, ne(A(atom("opq", "streq%r%r" % (a, b), (), True, dom=(0, 1)))))]
            return [(s, T if r == (op == "==") else F)]
        if op in ("==", "!=") and (isinstance(a, Sym) or isinstance(b, Sym)):
            a, b = self.shortvec(s, a, e), self.shortvec(s, b, e)
        if isinstance(a, (VList,)) and isinstance(b, VList) and op in ("==", "!="):
            if len(a.items) != len(b.items):
                return [(s, F if op == "==" else T)]
            r = T
            for x, y in zip(a.items, b.items):
                q = self.compare(s, "==", x, y, e)
                r = And(r, q[0][1])
            return [(s, r if op == "==" else Not(r))]
        if not isinstance(a, (Poly, Bx)) and not isinstance(b, (Poly, Bx)) and op in ("==", "!="):
            if a is UNINIT or b is UNINIT:
                pass
            else:
                r = ne(A(atom("opq", "eq(%r,%r)" % (a, b), (), True, dom=(0, 1))))
                return [(s, r if op == "==" else Not(r))]
        out = []
        for s1, x in self.num(s, a, e):
            for s2, y in self.num(s1, b, e):
                x2, y2 = s2.facts.norm(x), s2.facts.norm(y)
                r = {"==": lambda: eq(x2 - y2), "!=": lambda: ne(x2 - y2), "<": lambda: gt(y2 - x2),
                     ">": lambda: gt(x2 - y2), "<=": lambda: ge(y2 - x2), ">=": lambda: ge(x2 - y2)}[op]()
                out.append((s2, r))
        return out

    def shortvec(self, s, v, e):
        """a symbolic vector of known small size, element by element"""
        if not isinstance(v, Sym) or v.depth != 1 or v.leaf != ("float",) and v.leaf != ("int",):
            return v
        n = s.facts.norm(v.size[0]).cval()
        if n is None or n > 8:
            return v
        self.ntemp += 1
        r = ("t", s.x.get("frame", 0), "cmp%d" % self.ntemp)
        s.store[r] = v
        out = []
        for k in range(int(n)):
            q = self.load(s, LV(r).i(K(k)), e)
            if len(q) != 1 or q[0][0] is not s:
                del s.store[r]
                return v
            out.append(q[0][1])
        del s.store[r]
        return VList(out, v.leaf)

    def e_asg(self, e, st):
        out = []
        for s, l in self.asg(e, st):
            out.extend(self.load(s, l, e))
        return out

    def asg(self, e, st):
        op = e["op"]
        out = []
        if op == "=":
            for s, v in self.ev(e["b"], st):
                for s2, l in self.lv(e["a"], s):
                    for s3 in self.store(s2, l, v, e):
                        out.append((s3, l))
            return out
        bop = op[:-1]
        t = ptype(e["t"])
        ct = ptype(e["ct"]) if e.get("ct") else t
        for s, v in self.ev(e["b"], st):
            for s2, l in self.lv(e["a"], s):
                for s3, old in self.load1(s2, l, e):
                    for s4, r in self.binop(s3, bop, old, v, ct, e):
                        if isinstance(r, Poly) and t[0] == "int" and ct[0] == "float":
                            r = mk("trunc", r)
                        if t[0] == "bool" and isinstance(r, Poly):
                            r = ne(r)
                        if isinstance(r, Poly):
                            r = s4.facts.norm(r)
                        for s5 in self.store(s4, l, r, e):
                            out.append((s5, l))
        return out

    def e_cond(self, e, st):
        out = []
        for s, c in self.ev(e["c"], st):
            t, f = self.branch(s, self.truth(c, e), e)
            if t is not None:
                out.extend(self.ev(e["a"], t))
            if f is not None:
                out.extend(self.ev(e["b"], f))
        return out

    def e_cast(self, e, st):
        out = []
        ck = e.get("ck", "")
        t = ptype(e["t"])
        for s, v in self.ev(e["e"], st):
            out.extend(self.conv(s, v, t, ck, e))
        return out

    def conv(self, s, v, t, ck, e):
        t = strip_ref(t)
        if t[0] == "bool":
            if isinstance(v, (Bx,)):
                return [(s, v)]
            return [(s, self.truth(v, e))]
        if t[0] in ("int", "float") and isinstance(v, (Poly, Bx)):
            out = []
            for s2, p in self.num(s, v, e):
                if t[0] == "int" and ck in ("FloatingToIntegral",) and not is_int(p):
                    q = s2.facts.norm(p)
                    p = mk("trunc", q) if not is_int(q) else q
                out.append((s2, p))
            return out
        return [(s, v)]

    def e_copy(self, e, st):
        return self.ev(e["e"], st)

    def e_init(self, e, st):
        t = ptype(e["t"]) if e.get("t") else None
        out = []
        for s, vs in self.evs(e["e"], st):
            if t and t[0] == "rec" and self.prog.records.get(t[1]):
                fl = self.allfields(t[1])
                f = {}
                for j, x in enumerate(fl):
                    f[x["n"]] = vs[j] if j < len(vs) else self.zero(ptype(x["t"]))
                out.append((s, Struct(t[1], f)))
            elif t and t[0] == "arr":
                n = t[2]
                items = list(vs) + [self.zero(t[1]) for _ in range(n - len(vs))]
                if len(items) == 1 and n == 1:
                    pass
                # std::array<T,n> is initialised through a nested list
                if len(vs) == 1 and n > 1 and isinstance(vs[0], VList):
                    if len(vs[0].items) == n:
                        out.append((s, VList(vs[0].items, t[1])))
                        continue
                out.append((s, VList(items)))
            elif t and t[0] in ("int", "float", "bool", "ptr") and len(vs) == 1:
                out.append((s, vs[0]))
            else:
                out.append((s, VList(vs, t[1] if t and t[0] in ("vec", "il") else None)))
        return out

    def e_new(self, e, st):
        t = ptype(e["t"])
        if t[0] == "ptr":
            t = t[1]
        out = []
        for s, v in (self.ev(e["init"], st) if e.get("init") else [(st, self.zero(t))]):
            self.ntemp += 1
            r = ("h", self.loc(e)[1], self.ntemp)
            s.store[r] = v
            s.x["heap"] = s.x.get("heap", ()) + (r,)
            self.emit(s, "new", e, root=r)
            out.append((s, Ptr(LV(r))))
        return out

    def e_delete(self, e, st):
        out = []
        for s, v in self.ev(e["e"], st):
            if isinstance(v, Ptr) and v.lv is not None:
                r = v.lv.root
                if r in s.x.get("heap", ()):
                    s.x["heap"] = tuple(x for x in s.x["heap"] if x != r)
                    s.x["freed"] = s.x.get("freed", ()) + (r,)
                else:
                    self.model.badfree(self, s, e)
                self.emit(s, "delete", e, root=r)
            out.append((s, ZERO))
        return out

    def e_throw(self, e, st):
        s2 = []
        for s, v in (self.ev(e["e"], st) if e.get("e") else [(st, None)]):
            s.x["throw"] = (e.get("t"), self.loc(e))
            s2.append((s, Opaque("thrown", e.get("t"))))
        return s2

    def e_lambda(self, e, st):
        caps = {}
        cur = [(st, {})]
        this = st.x.get("this")
        for c in e.get("caps", []):
            if c.get("this"):
                continue
            nxt = []
            for s, d in cur:
                if c.get("init") is not None:
                    if c.get("ref"):
                        for s2, l in self.lv(c["init"], s):
                            d2 = dict(d)
                            d2[c["id"]] = RefV(l)
                            nxt.append((s2, d2))
                    else:
                        for s2, v in self.ev(c["init"], s):
                            d2 = dict(d)
                            d2[c["id"]] = v
                            nxt.append((s2, d2))
                    continue
                ve = {"k": "var", "id": c["id"], "n": c["n"], "t": None}
                l = LV(self.findvar(ve, s))
                v = s.store.get(l.root)
                if c.get("ref"):
                    d2 = dict(d)
                    d2[c["id"]] = v if isinstance(v, RefV) else RefV(l)
                    nxt.append((s, d2))
                else:
                    for s2, val in self.load(s, l, e):
                        d2 = dict(d)
                        d2[c["id"]] = val
                        nxt.append((s2, d2))
            cur = nxt
        return [(s, Lam(e, d, this)) for s, d in cur]

    # ------------------------------------------------------------ calls
    def ev_any(self, e, st):
        """call-like expression; may return LV values for reference results"""
        return getattr(self, "c_" + e["k"])(e, st)

    def deval(self, res, e):
        out = []
        for s, v in res:
            if isinstance(v, LV):
                out.extend(self.load1(s, v, e))
            else:
                out.append((s, v))
        return out

    def e_call(self, e, st):
        return self.deval(self.c_call(e, st), e)

    def e_mcall(self, e, st):
        return self.deval(self.c_mcall(e, st), e)

    def e_opcall(self, e, st):
        return self.deval(self.c_opcall(e, st), e)

    def args_for(self, fd_params, args, st):
        """evaluate arguments by the parameter kinds -> list of (st, [binding])"""
        res = [(st, [])]
        for j, a in enumerate(args):
            pt = ptype(fd_params[j]) if j < len(fd_params) else ("float",)
            nxt = []
            for s, vs in res:
                if pt[0] == "ref":
                    for s2, l in self.lv(a, s):
                        nxt.append((s2, vs + [RefV(self.withgens(s2, l))]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def c_call(self, e, st):
        fn = e.get("fn")
        if fn is None:
            cal = e.get("callee")
            out = []
            for s, f in self.ev(cal, st):
                if isinstance(f, Lam):
                    out.extend(self.call_lambda(e, f, e["args"], s, None))
                else:
                    self.broken("call through %r" % (f,), e)
            return out
        if not e.get("user") or fn.startswith("__builtin_"):
            return self.libcall(e, st, fn)
        fd = self.target(e)
        if fd is None:
            self.broken("no body for %s" % e.get("sig"), e)
        out = []
        for s, vs in self.args_for([p["t"] for p in fd["params"]], e["args"], st):
            out.extend(self.invoke(e, fd, vs, s, None))
        return out

    def target(self, e):
        sig = e.get("sig")
        tu = self.fstack[-1]["tu"] if self.fstack else ""
        fd = self.prog.functions.get("%s@%s" % (sig, tu)) or self.prog.functions.get(sig)
        if fd is None or fd.get("body") is None and not fd.get("ctor"):
            c = [f for f in self.prog.byname.get(e.get("fn"), []) if f.get("body") is not None
                 and len(f["params"]) == len(e.get("args", []))]
            if len(c) == 1:
                fd = c[0]
            elif len(c) > 1:
                c2 = [f for f in c if [p["t"] for p in f["params"]] == e.get("pt")]
                fd = c2[0] if len(c2) == 1 else None
        return fd

    def invoke(self, e, fd, vs, st, this):
        name = fd["name"]
        h = self.opaque.get(name)
        if h is not None:
            return h(self, st, fd, vs, e, this)
        r = self.model.summary(self, st, fd, vs, e, this)
        if r is not None:
            return r
        return self.inline(fd, vs, st, this, e)

    def inline(self, fd, vs, st, this, e):
        self.stats["calls"].add(fd["sig"])
        if len(self.fstack) > 40 or sum(1 for f in self.fstack if f is fd) > 3:
            self.broken("recursion in %s" % fd["name"], e)
        saved = (st.x.get("frame", 0), st.x.get("this"), st.x.get("env"))
        st.depth += 1
        self.ntemp += 1
        fr = self.ntemp
        st.x["frame"] = fr
        st.x["this"] = this
        st.x["env"] = None
        for p, v in zip(fd["params"], vs):
            st.store[("v", fr, p["id"])] = v
        missing = fd["params"][len(vs):]
        self.fstack.append(fd)
        try:
            sts = [st]
            for p in missing:
                if p.get("def") is None:
                    self.broken("missing argument of %s" % fd["name"], e)
                nxt = []
                for s in sts:
                    for s2, v in self.ev(p["def"], s):
                        s2.store[("v", fr, p["id"])] = v
                        nxt.append(s2)
                sts = nxt
            if fd.get("ctor"):
                sts = self.ctor_inits(fd, sts)
            res = []
            for s in sts:
                res.extend(self.exec(fd["body"], s) if fd.get("body") is not None else [(s, None)])
        finally:
            self.fstack.pop()
        out = []
        isref = ptype(fd.get("ret") or "void")[0] == "ref"
        for s, sig in res:
            v = Opaque("void")
            if sig is not None and sig[0] == "ret":
                v = sig[1]
            elif sig is not None and sig[0] == "throw":
                v = Opaque("thrown")
            self.dropframe(s, fr)
            s.depth -= 1
            s.x["frame"], s.x["this"], s.x["env"] = saved
            out.append((s, v))
        return out

    def dropframe(self, s, fr):
        for r in [r for r in s.store if r[0] in ("v", "t") and r[1] == fr]:
            del s.store[r]

    def ctor_inits(self, fd, sts):
        for i in fd.get("inits") or []:
            nxt = []
            for s in sts:
                th = s.x["this"]
                if i.get("m"):
                    for s2, v in self.ev(i["e"], s):
                        nxt.extend(self.store(s2, th.f(i["m"]), v, i["e"]))
                else:
                    e = i["e"]
                    if e.get("k") == "ctor" and e.get("user"):
                        tg = self.target(e)
                        if tg is None:
                            nxt.append(s)
                            continue
                        for s2, vs in self.args_for([p["t"] for p in tg["params"]], e["args"], s):
                            for s3, _ in self.invoke(e, tg, vs, s2, th):
                                nxt.append(s3)
                    else:
                        nxt.append(s)
            sts = nxt
        return sts

    def call_lambda(self, e, lam, args, st, op):
        le = lam.e
        params, body = le["params"], le.get("body")
        if le.get("generic"):
            for ins in le.get("insts", []):
                if ins["sig"] == e.get("sig") or len(le["insts"]) == 1:
                    params, body = ins["params"], ins["body"]
        if body is None:
            self.broken("lambda body", e)
        out = []
        for s, vs in self.args_for([p["t"] for p in params], args, st):
            saved = (s.x.get("frame", 0), s.x.get("this"), s.x.get("env"))
            self.ntemp += 1
            fr = self.ntemp
            s.x["frame"], s.x["this"], s.x["env"] = fr, lam.this, None
            for i, v in lam.caps.items():
                s.store[("v", fr, i)] = v
            for p, v in zip(params, vs):
                s.store[("v", fr, p["id"])] = v
            isref = ptype(le.get("ret") or "void")[0] == "ref"
            fake = dict(self.fstack[-1])
            fake["ret"] = le.get("ret") or "void"
            self.fstack.append(fake)
            try:
                res = self.exec(body, s)
            finally:
                self.fstack.pop()
            for s2, sig in res:
                v = Opaque("void")
                if sig is not None and sig[0] == "ret":
                    v = sig[1]
                self.dropframe(s2, fr)
                s2.x["frame"], s2.x["this"], s2.x["env"] = saved
                out.append((s2, v))
        return out

    def e_ctor(self, e, st):
        t = ptype(e["t"])
        fn = e.get("fn", "")
        args = [a for a in e["args"] if not str(a.get("t", "")).replace("const ", "").startswith("std::allocator")]
        if e.get("user"):
            fd = self.target(e)
            if fd is None:
                self.broken("constructor of %s" % e["t"], e)
            out = []
            for s, vs in self.args_for([p["t"] for p in fd["params"]], e["args"], st):
                l = self.temp(s, self.uninit(t))
                # default member initialisers are part of uninit() only for class types
                for s2, _ in self.invoke(e, fd, vs, s, l):
                    if s2.x.get("throw"):
                        out.append((s2, Opaque("thrown")))
                        continue
                    out.append((s2, s2.store.get(l.root, Opaque("obj"))))
            return out
        if t[0] == "vec":
            return self.vec_ctor(e, t, args, st)
        if t[0] == "arr" and not args:
            return [(st, self.uninit(t))]
        if t[0] == "tuple":
            return [(s, VList(vs)) for s, vs in self.evs(args, st)]
        if t[0] == "str":
            return self.str_ctor(e, args, st)
        if t[0] == "il":
            return [(s, VList(vs, t[1])) for s, vs in self.evs(args, st)]
        if fn.startswith("google::LogMessage"):
            out = []
            for s, vs in self.evs(args, st):
                sev = vs[2].cval() if len(vs) > 2 and isinstance(vs[2], Poly) else 0
                self.emit(s, "log", e, sev=sev, facts=s.facts)
                s.x["log"] = s.x.get("log", 0) + 1
                out.append((s, Opaque("log", sev)))
            return out
        if "uniform_int_distribution" in e["t"]:
            out = []
            for s, vs in self.evs(args, st):
                lo = vs[0] if vs else ZERO
                hi = vs[1] if len(vs) > 1 else K(2 ** 31 - 1)
                out.append((s, Opaque("uniform", lo, hi)))
            return out
        if e["t"] in ("__gnu_cxx::__normal_iterator",) or "__normal_iterator" in e["t"]:
            return self.ev(args[0], st) if args else [(st, Opaque("iter"))]
        r = self.model.ctor(self, e, t, args, st)
        if r is not None:
            return r
        out = []
        for s, vs in self.evs(args, st):
            out.append((s, Opaque("obj", e["t"], *vs)))
        return out

    def vec_ctor(self, e, t, args, st):
        if not args:
            return [(st, VList((), t[1]))]
        if e.get("stdlist") or (args[0].get("k") == "init" and len(args) == 1 and not e.get("list")):
            out = []
            for s, vs in self.evs(args[:1], st):
                v = vs[0]
                out.append((s, VList(v.items, t[1]) if isinstance(v, VList) else v))
            return out
        out = []
        for s, vs in self.evs(args, st):
            v0 = vs[0]
            if isinstance(v0, (VList, Sym, Perm)):
                out.append((s, v0))
                continue
            if isinstance(v0, Iter) and len(vs) == 2 and isinstance(vs[1], Iter):
                out.extend(self.vec_range(s, v0, vs[1], t, e))
                continue
            if isinstance(v0, Poly):
                fill = vs[1] if len(vs) > 1 else self.zero(t[1])
                out.append((s, self.make_vec(s, v0, fill, t, e)))
                continue
            self.broken("vector constructor", e)
        return out

    def vec_range(self, s, a, b, t, e):
        out = []
        n = s.facts.norm(b.idx - a.idx)
        for s2, v in self.load(s, a.lv, e):
            sz = self.vsize(v, e)
            if s2.facts.norm(a.idx) == ZERO and s2.facts.norm(sz - b.idx) == ZERO:
                out.append((s2, v))
            elif isinstance(v, VList) and a.idx.cval() is not None and b.idx.cval() is not None:
                out.append((s2, VList(v.items[a.idx.cval():b.idx.cval()], v.et)))
            else:
                self.broken("vector built from a sub-range", e)
        return out

    def make_vec(self, s, n, fill, t, e):
        c = s.facts.norm(n).cval()
        if c is not None and c <= 1024:
            return VList([fill] * c, t[1])
        nm = "vec%d" % P.fresh_id()
        if isinstance(fill, Sym) and fill.fill is not None and not fill.log:
            return Sym(nm, "gen", fill.depth + 1, fill.leaf, dict(fill.ep), (), (n,) + fill.size, None, dict(fill.fill))
        if isinstance(fill, (Poly, Bx)):
            el = strip_ref(t[1]) if t[0] == "vec" else self.shape(fill)
            if el[0] not in ("int", "float", "bool"):
                el = self.shape(fill)
            return Sym(nm, "gen", 1, el, {"": "0"}, (), (n,), None, {"": fill})
        if isinstance(fill, VList) and fill.items == ():
            return Opaque("vecs", nm, n)
        sh = self.shape(fill)
        if sh is not None:
            src = fill.f if isinstance(fill, Struct) else {str(j): x for j, x in enumerate(fill.items)}
            return Sym(nm, self.model.tagof(sh), 1, sh, {f: "0" for f in sh[1]}, (), (n,), None, dict(src))
        self.broken("vector of %r" % (fill,), e)

    def str_ctor(self, e, args, st):
        out = []
        for s, vs in self.evs(args, st):
            if not vs:
                out.append((s, Str([""])))
            elif isinstance(vs[0], Str) and len(vs) == 1:
                out.append((s, vs[0]))
            elif isinstance(vs[0], Poly) and len(vs) >= 2 and isinstance(vs[1], Poly):
                n, ch = vs[0].cval(), vs[1].cval()
                if n is not None and ch is not None:
                    out.append((s, Str([chr(ch) * max(n, 0)])))
                else:
                    out.append((s, Str([("rep", vs[0], vs[1])])))
            else:
                out.append((s, Str([("opq", tuple(vs))])))
        return out

    # ------------------------------------------------------------ library
    MATH1 = {"sqrt", "sin", "cos", "tan", "floor", "ceil", "round", "trunc", "fabs", "abs",
             "sqrtf", "sinf", "cosf", "tanf", "floorf", "ceilf", "roundf", "fabsf", "lround", "lroundf"}

    def libcall(self, e, st, fn):
        n = fn.split("::")[-1].split("<")[0]
        args = e["args"]
        if not args and ("numeric_limits<" in fn and n in ("max", "infinity", "lowest") or n in ("__builtin_inff", "__builtin_inf", "__builtin_huge_valf", "__builtin_huge_val")):
            if "numeric_limits<int>" in fn or "numeric_limits<" in fn and not any(x in fn for x in ("<float>", "<double>", "<long double>")):
                if n == "max" and "<int>" in fn:
                    return [(st, K(2147483647))]
                self.broken("%s" % fn, e)
            return [(st, -A(P.BIG) if n == "lowest" else A(P.BIG))]
        if n in ("isinf", "isfinite") and len(args) == 1:
            b = P.A(P.BIG)
            out = []
            for s, p in self.ev_num(args[0], st):
                c = Or(L.ge(p - b), L.ge(-b - p))
                out.append((s, c if n == "isinf" else Not(c)))
            return out
        if n in self.MATH1 and len(args) == 1:
            nm = {"fabs": "abs", "fabsf": "abs", "lround": "round", "lroundf": "round"}.get(n, n.rstrip("f") if n.endswith("f") and n not in () else n)
            return [(s, self.mathv(s, nm, p)) for s, p in self.ev_num(args[0], st)]
        if n in ("min", "max"):
            return self.minmax(e, st, n, args)
        if n == "copysign":
            return [(s, mk("copysign", a, b)) for s, (a, b) in self.evs(args, st)]
        if n == "pow":
            out = []
            for s, (a, b) in self.evs(args, st):
                c = b.cval()
                if c is not None and Fraction(c).denominator == 1 and 0 <= c <= 8:
                    r = ONE
                    for _ in range(int(c)):
                        r = r * a
                    out.append((s, r))
                else:
                    out.append((s, mk("pow", a, b)))
            return out
        if n in ("hypot",):
            out = []
            for s, vs in self.evs(args, st):
                q = ZERO
                for v in vs:
                    q = q + v * v
                out.append((s, mk("sqrt", q)))
            return out
        if n == "iter_swap":
            args = [{"k": "un", "op": "*", "e": x, "l": e.get("l"), "t": "auto"} for x in args]
        if n in ("swap", "iter_swap"):
            out = []
            for s, l1 in self.lv(args[0], st):
                for s2, l2 in self.lv(args[1], s):
                    for s3 in self.swap(s2, l1, l2, e):
                        out.append((s3, Opaque("void")))
            return out
        if n in ("move", "forward", "as_const", "addressof"):
            r = self.lv(args[0], st)
            return r if n != "addressof" else [(s, Ptr(l)) for s, l in r]
        if n == "tie":
            res = [(st, [])]
            for a in args:
                nxt = []
                for s, ls in res:
                    for s2, l in self.lv(a, s):
                        nxt.append((s2, ls + [RefV(l)]))
                res = nxt
            return [(s, VList(ls, "tie")) for s, ls in res]
        if n in ("make_tuple", "make_pair"):
            return [(s, VList(vs)) for s, vs in self.evs(args, st)]
        if n == "get" and len(args) == 1:
            k = e.get("ta", [None])[0]
            sig = e.get("sig", "")
            import re
            m = re.search(r"get<(\d+)\b", sig)
            at = int(m.group(1)) if m else None
            if m is None and (e.get("pt") or [""])[0].find("std::") >= 0:
                tt = strip_ref(ptype(e["pt"][0]))
                hit = [i for i, x in enumerate(tt[1])] if tt[0] == "tuple" else []
                hit = [i for i in hit if tt[1][i] == strip_ref(ptype(e.get("t") or "?"))]
                at = hit[0] if len(hit) == 1 else None
            if at is not None:
                out = []
                for s, l in self.lv(args[0], st):
                    out.append((s, l.i(K(at))))
                return out
            self.broken("std::get of %s" % sig, e)
        if n == "to_string":
            out = []
            for s, p in self.ev_num(args[0], st):
                c = s.facts.norm(p).cval()
                if c is not None and isinstance(c, int):
                    out.append((s, Str([str(c)])))
                else:
                    out.append((s, Str([("num", s.facts.norm(p))])))
            return out
        if n in ("fill", "fill_n"):
            return self.lib_fill(e, st, n, args)
        if n == "sort":
            return self.lib_sort(e, st, args)
        if n in ("begin", "end", "size", "distance", "empty", "ssize") and args:
            if n == "distance":
                return [(s, b.idx - a.idx) for s, (a, b) in self.evs(args, st)]
            return self.vecmeth(e, st, n, args[0], [], False)
        if n == "clamp":
            out = []
            for s, (v, lo, hi) in self.evs(args, st):
                out.append((s, mk("min", mk("max", v, lo), hi)))
            return out
        r = self.model.libcall(self, e, st, n, args)
        if r is None:
            r = self.foreign(e, st, args)
        if r is not None:
            return r
        self.broken("library function %s" % fn, e)

    def foreign(self, e, st, args, recv=None):
        """a library operation the evaluation knows nothing about: it is given
        no handle on analysed data, so all it can do is return any value"""
        for t in e.get("pt") or ():
            cst = t.strip().startswith("const ") or t.strip().endswith("&&")
            t = ptype(t)
            if t[0] == "ptr" or t[0] == "ref":
                pt = strip_ref(t[1] if t[0] == "ptr" else t)
                if not cst and pt[0] in ("int", "float", "bool", "vec", "arr", "ptr", "rec", "str"):
                    return None
        if any(not self.unowned(v) for v in (recv,) if v is not None):
            return None
        out = []
        for s, vs in self.evs(args, st):
            if any(isinstance(v, (Ptr, Iter, Lam, RefV)) for v in vs):
                return None
            out.append((s, self.anyvalue(e.get("t") or "void", e)))
        return out

    def unowned(self, v):
        return isinstance(v, Opaque) or isinstance(v, Struct) and v.name.startswith("std::")

    def anyvalue(self, t, e):
        t = ptype(t)
        c = strip_ref(t)
        if c[0] in ("int", "float"):
            return A(fresh("ext", isint=c[0] == "int"))
        if c[0] == "bool":
            return ne(A(fresh("ext", isint=True)))
        if c[0] == "str":
            return Str([("opq", Opaque("ext", P.fresh_id()))])
        if c[0] in ("vec", "arr", "tuple", "il") or c[0] in ("ptr", "rec") and "soil_simulator" in repr(c):
            self.broken("result of %s" % (e.get("fn") or e.get("n")), e)
        return Opaque("ext", P.fresh_id())

    def mathv(self, s, nm, p):
        p = s.facts.norm(p)
        if nm in ("floor", "ceil", "round", "trunc") and is_int(p):
            return p
        if nm == "abs":
            v = s.facts.decide(ge(p))
            if v is True:
                return p
            if v is False:
                return -p
        if nm == "round":
            h = Fraction(1, 2)
            # round(k + small) with integer part known
        return mk(nm, p)

    def minmax(self, e, st, n, args):
        out = []
        for s, vs in self.evs(args, st):
            if len(vs) >= 1 and isinstance(vs[0], VList):
                vs = list(vs[0].items)
            elif len(vs) == 3 and isinstance(vs[2], Lam):
                self.broken("min/max with comparator", e)
            res = [(s, [])]
            for v in vs:
                res = [(s3, l + [p]) for s2, l in res for s3, p in self.num(s2, v, e)]
            for s2, ps in res:
                out.extend(self.minmaxv(s2, n, ps, e))
        return out

    def minmaxv(self, s, n, ps, e):
        ps = [s.facts.norm(p) for p in ps]
        sg = 1 if n == "max" else -1
        # dominated arguments
        cur = ps[0]
        und = False
        for p in ps[1:]:
            d = (cur - p).scale(sg)
            v = s.facts.decide(ge(d))
            if v is True:
                continue
            if v is False:
                cur = p
                continue
            if s.facts.decide(ge(-d)) is True:
                cur = p
                continue
            und = True
            break
        if not und:
            return [(s, cur)]
        if len(ps) == 2 and all(is_ht(p) for p in ps) and self.model.split_minmax:
            t, f = self.branch(s, ge((ps[0] - ps[1]).scale(sg)), e)
            out = []
            if t is not None:
                out.append((t, ps[0]))
            if f is not None:
                out.append((f, ps[1]))
            return out
        return [(s, mk(n, *ps))]

    def lib_fill(self, e, st, n, args):
        out = []
        for s, (a, b, v) in self.evs(args, st):
            if n == "fill_n":
                hi = a.idx + b
            else:
                hi = b.idx
            if not isinstance(a, Iter):
                self.broken("fill", e)
            for s2, cont, i, l in self.walk(s, a.lv):
                if isinstance(cont, VList) and a.idx.cval() is not None and hi.cval() is not None:
                    items = list(cont.items)
                    for j in range(a.idx.cval(), hi.cval()):
                        items[j] = v
                    self.putat(s2, l, i, VList(items, cont.et, cont.gen))
                    out.append((s2, Opaque("void")))
                elif isinstance(cont, Sym) and isinstance(v, (Poly, Bx)):
                    key = tuple(p for k, p in l.path[i:]) + (Rng(a.idx, hi),)
                    if len(key) != cont.depth:
                        self.broken("fill of rows", e)
                    self.model.on_rangewrite(self, s2, l, i, key, "", v, e)
                    self.putlog(s2, l, i, key, "", v, e)
                    out.append((s2, Opaque("void")))
                elif isinstance(cont, Sym) and isinstance(v, Sym) and v.fill is not None and not v.log:
                    key = tuple(p for k, p in l.path[i:]) + (Rng(a.idx, hi),) + tuple(Rng(ZERO, x) for x in v.size)
                    if len(key) != cont.depth:
                        self.broken("fill of rows", e)
                    self.model.on_rangewrite(self, s2, l, i, key, "", v.fill[""], e)
                    self.putlog(s2, l, i, key, "", v.fill[""], e)
                    out.append((s2, Opaque("void")))
                else:
                    self.broken("fill of %r" % (cont,), e)
        return out

    def lib_sort(self, e, st, args):
        out = []
        for s, vs in self.evs(args, st):
            a = vs[0]
            for s2, cont, i, l in self.walk(s, a.lv):
                self.emit(s2, "sort", e, lv=l, custom=len(args) > 2, full=(
                    s2.facts.norm(a.idx) == ZERO and s2.facts.norm(self.vsize(cont) - vs[1].idx) == ZERO)
                    if isinstance(cont, (VList, Sym, Perm)) else False)
                if isinstance(cont, VList):
                    self.putat(s2, l, i, Perm(cont.items, "p%d" % P.fresh_id(), cont.et, cont.gen) if len(cont.items) > 1 else cont)
                elif isinstance(cont, Sym):
                    self.putat(s2, l, i, self.reorder(cont))
                elif isinstance(cont, Perm):
                    self.putat(s2, l, i, Perm(cont.rows, "p%d" % P.fresh_id(), cont.et, cont.gen))
                elif isinstance(cont, Opaque):
                    self.putat(s2, l, i, Opaque("sorted", cont))
                out.append((s2, Opaque("void")))
        return out

    def c_mcall(self, e, st):
        if e.get("user"):
            fd = self.target(e)
            if fd is None:
                self.broken("no body for %s" % e["sig"], e)
            out = []
            if e.get("arrow"):
                bs = [(s, v.lv) for s, v in self.ev(e["b"], st)]
            else:
                bs = self.lv(e["b"], st)
            for s, l in bs:
                for s2, vs in self.args_for([p["t"] for p in fd["params"]], e["args"], s):
                    out.extend(self.invoke(e, fd, vs, s2, l))
            return out
        return self.vecmeth(e, st, e["n"], e["b"], e["args"], e.get("arrow"))

    def vecmeth(self, e, st, n, be, args, arrow):
        bt = ptype(e.get("bt", "")) if e.get("bt") else ("vec", ("float",))
        out = []
        if arrow:
            bases = []
            for s, v in self.ev(be, st):
                if isinstance(v, Ptr) and v.lv is not None:
                    if v.lv.gens:
                        self.chkgen(s, v.lv, e)
                    self.chkfreed(s, v.lv, e)
                    bases.append((s, v.lv))
                elif isinstance(v, Iter):
                    if v.lv.gens:
                        self.chkgen(s, v.lv, e)
                    bases.append((s, LV(v.lv.root, v.lv.path).i(v.idx)))
                else:
                    bases.append((s, self.temp(s, v)))
        else:
            bases = self.lv(be, st)
        bt = strip_ref(bt)
        if bt[0] == "ptr":
            bt = strip_ref(bt[1])
        for s, l in bases:
            if bt[0] == "str":
                out.extend(self.strmeth(e, s, n, l, args))
                continue
            if bt[0] not in ("vec", "arr", "il", "bool"):
                r = self.model.method(self, e, s, n, l, bt, args)
                if r is not None:
                    out.extend(r)
                    continue
                if n in ("stream",):
                    for s2, v in self.load(s, l, e):
                        out.append((s2, v))
                    continue
                for s2, v in self.load(s, l, e):
                    r = self.foreign(e, s2, args, v)
                    if r is None:
                        self.broken("method %s of %s" % (n, bt), e)
                    out.extend(r)
                continue
            if n in ("size", "ssize"):
                out.extend(self.sizeof(s, l, e))
            elif n == "empty":
                out.extend((s2, eq(p)) for s2, p in self.sizeof(s, l, e))
            elif n in ("begin", "cbegin", "data"):
                out.append((s, Iter(self.itgens(s, l), ZERO)))
            elif n in ("end", "cend"):
                out.extend((s2, Iter(self.itgens(s2, l), p)) for s2, p in self.sizeof(s, l, e))
            elif n in ("at",):
                for s2, p in self.ev_num(args[0], s):
                    out.append((s2, l.i(s2.facts.norm(p))))
            elif n == "front":
                out.append((s, l.i(ZERO)))
            elif n == "back":
                out.extend((s2, l.i(s2.facts.norm(p - ONE))) for s2, p in self.sizeof(s, l, e))
            elif n in ("push_back", "emplace_back"):
                for s2, vs in self.evs(args, s):
                    v = vs[0] if len(vs) == 1 else None
                    et = strip_ref(bt[1]) if bt[0] == "vec" else None
                    if n == "emplace_back" and et is not None and et[0] == "rec" and not (
                            len(vs) == 1 and isinstance(vs[0], Struct)):
                        fl = self.allfields(et[1])
                        v = Struct(et[1], {x["n"]: vs[j] if j < len(vs) else self.zero(ptype(x["t"]))
                                           for j, x in enumerate(fl)})
                    elif n == "emplace_back" and et is not None and et[0] == "vec" and len(vs) == 1 and isinstance(vs[0], VList):
                        v = vs[0]
                    if v is None:
                        self.broken("emplace_back", e)
                    for s3 in self.push(s2, l, v, e):
                        out.append((s3, Opaque("void")))
            elif n in ("clear",):
                out.extend(self.vclear(s, l, e))
            elif n == "erase":
                for s2, vs in self.evs(args, s):
                    if len(vs) == 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter):
                        for s3, p in self.sizeof(s2, l, e):
                            if s3.facts.norm(vs[0].idx) == ZERO and s3.facts.norm(vs[1].idx - p) == ZERO:
                                out.extend(self.vclear(s3, l, e))
                            else:
                                self.broken("partial erase", e)
                    else:
                        self.broken("erase", e)
            elif n in ("resize", "assign") and args:
                for s2, vs in self.evs(args, s):
                    out.extend(self.vresize(s2, l, vs, n, bt, e))
            elif n == "insert":
                for s2, vs in self.evs(args, s):
                    out.extend(self.vinsert(s2, l, vs, e))
            elif n in ("reserve", "shrink_to_fit"):
                for s2, vs in self.evs(args, s):
                    for s3, v, i, l3 in self.walk(s2, l):
                        if i == len(l3.path) and isinstance(v, (VList, Sym, Perm)):
                            self.putat(s3, l3, i, self.regen(v, v))
                        out.append((s3, Opaque("void")))
            elif n == "capacity":
                out.append((s, A(fresh("cap", isint=True))))
            elif n == "swap":
                for s2, l2 in self.lv(args[0], s):
                    for s3 in self.swap2(s2, l, l2, e):
                        out.append((s3, Opaque("void")))
            elif n == "pop_back":
                for s2, v, i, l3 in self.walk(s, l):
                    if isinstance(v, VList) and v.items:
                        self.model.on_pop(self, s2, l3, v, e)
                        self.putat(s2, l3, i, VList(v.items[:-1], v.et, v.gen))
                    else:
                        self.model.on_pop(self, s2, l3, v, e)
                        if isinstance(v, Sym):
                            self.putat(s2, l3, i, v.rep(size=(v.size[0] - ONE,) + v.size[1:], sum=None if v.sum is None else A(fresh("sum"))))
                    out.append((s2, Opaque("void")))
            elif n == "fill" and args:
                for s2, vs in self.evs(args, s):
                    for s3, v, i, l3 in self.walk(s2, l):
                        if isinstance(v, VList):
                            self.putat(s3, l3, i, VList([vs[0]] * len(v.items), v.et, v.gen))
                        out.append((s3, Opaque("void")))
            elif n.startswith("operator bool") or n == "operator bool" or bt[0] == "bool":
                for s2, v in self.load(s, l, e):
                    out.append((s2, v))
            else:
                self.broken("vector method %s" % n, e)
        return out

    def vclear(self, s, l, e):
        out = []
        for s2, v, i, l2 in self.walk(s, l):
            if i != len(l2.path):
                self.broken("clear of a row", e)
            self.model.on_clear(self, s2, l2, v, e)
            if isinstance(v, Sym):
                nv = v.rep(ep={f: "c%d" % P.fresh_id() for f in v.ep}, log=(), size=(ZERO,) + v.size[1:],
                           sum=ZERO if v.sum is not None else None, gen=v.gen + 1, pats=None, reads={}, fill=None)
            elif isinstance(v, (VList, Perm)):
                nv = VList((), v.et, v.gen + 1)
            else:
                nv = v
            self.putat(s2, l2, i, nv)
            out.append((s2, Iter(l2, ZERO)))
        return out

    def vresize(self, s, l, vs, n, bt, e):
        out = []
        for s2, v, i, l2 in self.walk(s, l):
            if i != len(l2.path):
                if isinstance(v, Sym):
                    self.broken("resize of a row", e)
                out.append((s2, Opaque("void")))
                continue
            if n == "assign" and isinstance(vs[0], Iter):
                for s3, nv in self.vec_range(s2, vs[0], vs[1], bt, e):
                    self.model.on_assign(self, s3, l2, v, nv, e)
                    self.putat(s3, l2, i, self.regen(v, nv))
                    out.append((s3, Opaque("void")))
                continue
            if n == "assign" and isinstance(vs[0], VList):
                self.putat(s2, l2, i, self.regen(v, vs[0]))
                out.append((s2, Opaque("void")))
                continue
            nn = s2.facts.norm(vs[0])
            fill = vs[1] if len(vs) > 1 else self.zero(bt[1])
            if n == "assign" or (isinstance(v, VList) and not v.items):
                nv = self.make_vec(s2, nn, fill, bt, e)
            elif isinstance(v, VList) and nn.cval() is not None:
                k = nn.cval()
                nv = VList(v.items[:k] + (fill,) * max(0, k - len(v.items)), v.et)
            elif isinstance(v, (VList, Sym, Perm)) and s2.facts.norm(self.vsize(v) - nn) == ZERO:
                nv = v
            else:
                self.broken("resize of a non-empty vector", e)
            if isinstance(nv, (VList, Sym, Perm)) and isinstance(v, (VList, Sym, Perm)):
                nv = self.regen(v, nv)
            self.model.on_assign(self, s2, l2, v, nv, e)
            self.putat(s2, l2, i, nv)
            out.append((s2, Opaque("void")))
        return out

    def vinsert(self, s, l, vs, e):
        out = []
        if len(vs) == 2 and isinstance(vs[0], Iter):
            for s2, p in self.sizeof(s, l, e):
                if s2.facts.norm(vs[0].idx - p) == ZERO and not isinstance(vs[1], Iter):
                    for s3 in self.push(s2, l, vs[1], e):
                        out.append((s3, Opaque("iter")))
                else:
                    self.broken("insert in the middle", e)
            return out
        if len(vs) == 3 and isinstance(vs[1], Iter) and isinstance(vs[2], Iter):
            for s2, p in self.sizeof(s, l, e):
                if s2.facts.norm(vs[0].idx - p) != ZERO:
                    self.broken("insert in the middle", e)
                for s3, src in self.load(s2, vs[1].lv, e):
                    full = (s3.facts.norm(vs[1].idx) == ZERO and
                            s3.facts.norm(self.vsize(src) - vs[2].idx) == ZERO)
                    out.extend(self.append(s3, l, src, full, vs, e))
            return out
        self.broken("insert", e)

    def append(self, st, l, src, full, vs, e):
        out = []
        for s, v, i, l2 in self.walk(st, l):
            if i != len(l2.path):
                self.broken("append to a row", e)
            if isinstance(src, VList) and vs[1].idx.cval() is not None and vs[2].idx.cval() is not None:
                sts = [s]
                for x in src.items[vs[1].idx.cval():vs[2].idx.cval()]:
                    nxt = []
                    for q in sts:
                        nxt.extend(self.push(q, l2, x, e))
                    sts = nxt
                out.extend((q, Opaque("iter")) for q in sts)
                continue
            if isinstance(v, Sym) and isinstance(src, Sym):
                n = vs[2].idx - vs[1].idx
                self.model.on_append(self, s, l2, v, src, full, e)
                sm = None
                if v.sum is not None:
                    sm = v.sum + src.sum if full and src.sum is not None else A(fresh("sum"))
                self.putat(s, l2, i, v.rep(size=(s.facts.norm(v.size[0] + n),) + v.size[1:], sum=sm, gen=v.gen + 1))
                out.append((s, Opaque("iter")))
                continue
            if isinstance(v, VList) and not v.items and full:
                self.model.on_append(self, s, l2, v, src, full, e)
                self.putat(s, l2, i, self.regen(v, src))
                out.append((s, Opaque("iter")))
                continue
            if isinstance(v, (Opaque, VList)) or isinstance(src, Opaque):
                self.model.on_append(self, s, l2, v, src, full, e)
                self.putat(s, l2, i, Opaque("cat", v, src, full))
                out.append((s, Opaque("iter")))
                continue
            self.broken("append of %r to %r" % (src, v), e)
        return out

    def substr(self, st, v, vs):
        """substring cut at positions found in the same string"""
        def place(p):
            p = st.facts.norm(p)
            c = p.cval()
            if c == 0:
                return (0, 0)
            for a in p.deep():
                w = self.strpos.get(a)
                if w is not None and w[0] == v:
                    d = (p - A(ATOMS[a])).cval()
                    if d is not None and 0 <= w[2] + d <= len(v.parts[w[1]]):
                        return (w[1], w[2] + int(d))
            return None
        if not isinstance(vs[0], Poly):
            return None
        i = place(vs[0])
        if i is None:
            return None
        j = None
        if len(vs) > 1:
            n = vs[1]
            if not isinstance(n, Poly):
                return None
            if i == (0, 0):
                j = place(n)
            if j is None:
                j = place(vs[0] + n)
            if j is None and not (st.facts.decide(ge(vs[0] + n - self.vsize(v))) is True or (n.cval() is not None and (n.cval() < 0 or n.cval() > 2 ** 31))):
                return None
        ps = list(v.parts)
        if j is not None:
            ps = ps[:j[0]] + ([ps[j[0]][:j[1]]] if j[1] else [])
        if i[0] < len(ps) and i != (0, 0):
            ps = [ps[i[0]][i[1]:]] + ps[i[0] + 1:]
        return Str(ps)

    def strmeth(self, e, st, n, l, args):
        out = []
        for s, v in self.load(st, l, e):
            for s2, vs in self.evs(args, s):
                if not isinstance(v, Str):
                    v = Str([("opq", v)])
                c = v.const()
                if n in ("size", "length"):
                    out.append((s2, self.vsize(v)))
                elif n == "empty":
                    out.append((s2, (T if c == "" else F) if c is not None else ne(A(fresh("strempty", isint=True, dom=(0, 1))))))
                elif n == "append":
                    nv = Str(v.parts + (vs[0].parts if isinstance(vs[0], Str) else (("opq", vs[0]),)))
                    for s3 in self.store(s2, l, nv, e):
                        out.append((s3, l))
                elif n == "substr":
                    k = [x.cval() if isinstance(x, Poly) else None for x in vs]
                    if c is not None and all(x is not None for x in k):
                        out.append((s2, Str([c[k[0]:k[0] + k[1]] if len(k) > 1 else c[k[0]:]])))
                    else:
                        out.append((s2, self.substr(s2, v, vs) or Str([("substr", v, tuple(vs))])))
                elif n in ("find_last_of", "find", "rfind", "find_first_of"):
                    a = vs[0].const() if isinstance(vs[0], Str) else None
                    if isinstance(vs[0], Poly) and vs[0].cval() is not None:
                        a = chr(vs[0].cval())
                    if len(vs) == 2 and isinstance(vs[1], Poly) and vs[1].cval() is not None and \
                            (vs[1].cval() > 2 ** 31 or vs[1].cval() == -1 if n in ("find_last_of", "rfind") else vs[1].cval() == 0):
                        vs = vs[:1]
                    if c is not None and a is not None and len(vs) == 1 and len(a) == 1:
                        j = c.rfind(a) if n in ("find_last_of", "rfind") else c.find(a)
                        out.append((s2, K(j)))
                    else:
                        at = atom("app", "%s:%r:%r" % (n, v, vs), (), True)
                        if a is not None and len(vs) == 1 and len(a) == 1:
                            w = v.where(a, n in ("find_last_of", "rfind"))
                            if w is not None:
                                self.strpos[at.id] = (v,) + w
                                add_axioms(at, [ge(A(at))])
                        out.append((s2, A(at)))
                elif n in ("c_str", "data", "str"):
                    out.append((s2, v))
                elif n in ("at", "operator[]"):
                    out.append((s2, l.i(vs[0])))
                elif n in ("push_back",):
                    ch = vs[0].cval()
                    nv = Str(v.parts + ((chr(ch),) if ch is not None else (("opq", vs[0]),)))
                    for s3 in self.store(s2, l, nv, e):
                        out.append((s3, Opaque("void")))
                elif n == "insert":
                    out.append((s2, l))
                    self.putat(s2, self.resolve(s2, l), len(self.resolve(s2, l).path), Str([("ins", v, tuple(map(repr, vs)))]))
                else:
                    self.broken("string method %s" % n, e)
        return out

    def c_opcall(self, e, st):
        op = e["op"]
        args = e["args"]
        if not e.get("user") and not e.get("lam") and "atomic" in (e.get("fn") or ""):
            out = []
            for s, v in self.ev(args[0], st):
                if isinstance(v, LV):
                    v = self.load(s, v, e)[0][1]
                r = self.foreign(e, s, args[1:], v)
                if r is None:
                    self.broken("operator %s of an atomic" % op, e)
                out.extend(r)
            return out
        if e.get("user") and not e.get("lam"):
            fd = self.target(e)
            if fd is None and op == "=" and len(args) == 2:
                # implicitly defined copy or move assignment
                return self.e_asg({"k": "asg", "op": "=", "a": args[0], "b": args[1], "l": e.get("l"), "t": e.get("t")}, st)
            if fd is None:
                self.broken("operator %s" % e.get("sig"), e)
            out = []
            if fd.get("method"):
                for s, l in self.lv(args[0], st):
                    for s2, vs in self.args_for([p["t"] for p in fd["params"]], args[1:], s):
                        out.extend(self.invoke(e, fd, vs, s2, l))
            else:
                for s, vs in self.args_for([p["t"] for p in fd["params"]], args, st):
                    out.extend(self.invoke(e, fd, vs, s, None))
            return out
        if op == "()":
            out = []
            for s, f in self.ev(args[0], st):
                if isinstance(f, Lam):
                    out.extend(self.call_lambda(e, f, args[1:], s, None))
                elif isinstance(f, Opaque) and f.tag == "uniform":
                    for s2, l in self.lv(args[1], s):
                        a = fresh("rnd", isint=True)
                        add_axioms(a, [])
                        lo, hi = f.args
                        if len(args) > 2:
                            self.broken("distribution parameters", e)
                        s2.facts.assume(ge(A(a) - lo))
                        s2.facts.assume(ge(hi - A(a)))
                        self.emit(s2, "rng", e, gen=l, lo=lo, hi=hi, out=A(a))
                        out.append((s2, A(a)))
                else:
                    r = self.model.callobj(self, e, s, f, args[1:])
                    if r is None:
                        self.broken("call of %r" % (f,), e)
                    out.extend(r)
            return out
        if op == "=":
            out = []
            for s, v in self.ev(args[1], st):
                for s2, l in self.lvtie(args[0], s):
                    if isinstance(l, VList):
                        sts = [s2]
                        if not isinstance(v, VList) or len(v.items) != len(l.items):
                            self.broken("tie assignment", e)
                        for r, x in zip(l.items, v.items):
                            sts = [q for s3 in sts for q in self.store(s3, r.lv, x, e)]
                        out.extend((q, Opaque("void")) for q in sts)
                    else:
                        if isinstance(v, VList) and v.et is None:
                            t0 = ptype(args[0].get("t") or "float")
                            if t0[0] == "vec":
                                v = VList(v.items, t0[1])
                        for s3 in self.store(s2, l, v, e):
                            out.append((s3, l))
            return out
        if op == "[]":
            out = []
            if self.itertype(args[0]):
                for s, v in self.ev(args[0], st):
                    if not isinstance(v, Iter):
                        self.broken("[] on %r" % (v,), e)
                    out.extend(self.iterat(s, v, args[1], e))
                return out
            for s, l in self.lv(args[0], st):
                for s2, p in self.ev_num(args[1], s):
                    out.append((s2, l.i(s2.facts.norm(p))))
            return out
        if op in ("<<", ">>"):
            r = self.model.stream(self, e, op, args, st)
            if r is not None:
                return r
            out = []
            for s, vs in self.evs(args, st):
                out.append((s, vs[0]))
            return out
        if op in ("==", "!=", "<", ">", "<=", ">="):
            out = []
            for s, (a, b) in self.evs(args, st):
                out.extend(self.compare(s, op, a, b, e))
            return out
        if op in ("+", "-"):
            out = []
            for s, vs in self.evs(args, st):
                if len(vs) == 2 and (isinstance(vs[0], Str) or isinstance(vs[1], Str)):
                    a = vs[0].parts if isinstance(vs[0], Str) else ((chr(vs[0].cval()),) if isinstance(vs[0], Poly) and vs[0].cval() is not None else (("opq", vs[0]),))
                    b = vs[1].parts if isinstance(vs[1], Str) else ((chr(vs[1].cval()),) if isinstance(vs[1], Poly) and vs[1].cval() is not None else (("opq", vs[1]),))
                    out.append((s, Str(a + b)))
                elif len(vs) == 2:
                    out.extend(self.binop(s, op, vs[0], vs[1], ("int",), e))
                else:
                    out.append((s, -vs[0]))
            return out
        if op in ("++", "--"):
            pre = len(args) == 1
            d = ONE if op == "++" else -ONE
            out = []
            for s, l in self.lv(args[0], st):
                for s2, v in self.load(s, l, e):
                    nv = Iter(v.lv, v.idx + d) if isinstance(v, Iter) else v
                    for s3 in self.store(s2, l, nv, e):
                        out.append((s3, l if pre else v))
            return out
        if op in ("*", "->"):
            out = []
            for s, v in self.ev(args[0], st):
                if isinstance(v, Iter):
                    if v.lv.gens:
                        self.chkgen(s, v.lv, e)
                    out.append((s, LV(v.lv.root, v.lv.path).i(s.facts.norm(v.idx))))
                elif isinstance(v, Ptr) and v.lv is not None:
                    out.append((s, v.lv))
                else:
                    self.broken("operator%s of %r" % (op, v), e)
            return out
        if op in ("+=", "-="):
            out = []
            for s, v in self.ev(args[1], st):
                for s2, l in self.lv(args[0], s):
                    for s3, old in self.load(s2, l, e):
                        if isinstance(old, Iter):
                            nv = Iter(old.lv, old.idx + (v if op == "+=" else -v))
                        elif isinstance(old, Str):
                            nv = Str(old.parts + (v.parts if isinstance(v, Str) else (("opq", v),)))
                        else:
                            self.broken("operator%s" % op, e)
                        for s4 in self.store(s3, l, nv, e):
                            out.append((s4, l))
            return out
        if op == "!":
            r = self.model.negate(self, e, args[0], st)
            if r is not None:
                return r
            return [(s, Not(self.truth(v, e))) for s, v in self.ev(args[0], st)]
        self.broken("operator %s" % op, e)

    def lvtie(self, e, st):
        if e["k"] == "call" and (e.get("fn") or "").endswith("tie"):
            return self.libcall(e, st, e["fn"])
        return self.lv(e, st)

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        """-> list of (state, signal)"""
        if s is None:
            return [(st, None)]
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.broken("statement kind %s" % k, s)
        if "l" in s and self.fstack:
            self.line = s["l"]
            self.stats["stmts"].add((self.fstack[-1]["file"], s["l"]))
        return m(s, st)

    def chkthrow(self, res):
        out = []
        for st, sig in res:
            if st.x.get("throw") and (sig is None or sig[0] != "throw"):
                sig = ("throw", st.x["throw"])
            out.append((st, sig))
        return out

    def s_seq(self, s, st):
        cur = [(st, None)]
        for x in s["s"]:
            nxt = []
            for q, sig in cur:
                if sig is not None:
                    nxt.append((q, sig))
                else:
                    nxt.extend(self.chkthrow(self.exec(x, q)))
            cur = nxt
        return cur

    def s_null(self, s, st):
        return [(st, None)]

    def s_label(self, s, st):
        return self.exec(s.get("s"), st)

    def s_expr(self, s, st):
        e = s["e"]
        if e["k"] in ("opcall", "mcall", "call"):
            return [(q, None) for q, v in self.ev_any(e, st)]
        if e["k"] == "asg":
            return [(q, None) for q, l in self.asg(e, st)]
        if e["k"] == "un" and e["op"] in ("++", "--"):
            return [(q, None) for q, l in self.incdec(e, st, True)]
        if e["k"] == "throw":
            return [(q, ("throw", q.x.get("throw"))) for q, v in self.ev(e, st)]
        return [(q, None) for q, v in self.ev(e, st)]

    def s_ret(self, s, st):
        e = s.get("e")
        if e is None:
            return [(st, ("ret", Opaque("void")))]
        fd = self.fstack[-1]
        rt = ptype(fd.get("ret") or "void")
        if rt[0] == "ref":
            return [(q, ("ret", l)) for q, l in self.lv(e, st)]
        out = []
        for q, v in self.ev(e, st):
            if rt[0] == "vec" and isinstance(v, VList) and v.et is None:
                v = VList(v.items, rt[1])
            if rt[0] in ("bool",) and not isinstance(v, Bx):
                v = self.truth(v, s)
            out.append((q, ("ret", v)))
        return out

    def s_decl(self, s, st):
        cur = [st]
        for d in s["d"]:
            nxt = []
            for q in cur:
                if d["k"] == "vd":
                    nxt.extend(self.declare(d, q))
                elif d["k"] == "sbind":
                    nxt.extend(self.sbind(d, q))
                else:
                    nxt.append(q)
            cur = nxt
        return [(q, None) for q in cur]

    def declare(self, d, st, val=None):
        t = ptype(d["t"])
        if d.get("static"):
            r = ("s", d["n"], d["id"])
            self.emit(st, "static", d, name=d["n"], const=d.get("const"))
            if r not in st.store:
                if d.get("init") is not None:
                    out = []
                    for q, v in self.ev(d["init"], st):
                        q.store[r] = v if d.get("const") else self.model.static(self, d, v)
                        out.append(q)
                    return out
                st.store[r] = self.model.static(self, d, self.zero(t))
            return [st]
        r = ("v", st.x.get("frame", 0), d["id"])
        if d.get("init") is None:
            st.store[r] = self.uninit(t)
            return [st]
        out = []
        if t[0] == "ref":
            for q, l in self.lv(d["init"], st):
                q.store[r] = RefV(self.withgens(q, l))
                out.append(q)
            return out
        for q, v in self.ev(d["init"], st):
            if t[0] == "vec" and isinstance(v, VList):
                v = VList(v.items, t[1], 0)
            if t[0] == "bool" and not isinstance(v, Bx):
                v = self.truth(v, d)
            q.store[r] = v
            out.append(q)
        return out

    def sbind(self, d, st):
        t = ptype(d["t"])
        out = []
        isref = t[0] == "ref"
        for q, l in (self.lv(d["init"], st) if isref or d["init"]["k"] in ("var", "mem", "idx") else
                     [(s, self.temp(s, v)) for s, v in self.ev(d["init"], st)]):
            if not isref:
                vs = self.load(q, l, d["init"])
            else:
                vs = [(q, None)]
            for q2, v in vs:
                for j, b in enumerate(d["ids"]):
                    r = ("v", q2.x.get("frame", 0), b["id"])
                    if isref:
                        w = self.load(q2, l, d["init"])
                        hv = w[0][1]
                        q2.store[r] = RefV(l.f(list(hv.f)[j]) if isinstance(hv, Struct) else l.i(K(j)))
                    elif isinstance(v, VList):
                        q2.store[r] = v.items[j]
                    elif isinstance(v, Struct):
                        q2.store[r] = v.f[list(v.f)[j]]
                    elif isinstance(v, Opaque):
                        q2.store[r] = self.model.opaque_member(self, q2, v, (("i", K(j)),), d["init"])
                    else:
                        self.broken("structured binding of %r" % (v,), d)
                out.append(q2)
        return out

    def s_if(self, s, st):
        out = []
        pre = [st]
        if s.get("init"):
            pre = [q for q, _ in self.exec(s["init"], st)]
        for p in pre:
            if s.get("cv"):
                cvs = self.declare(s["cv"], p)
            else:
                cvs = [p]
            for q0 in cvs:
                for q, c in self.ev(s["c"], q0):
                    if q.x.get("throw"):
                        out.append((q, ("throw", q.x["throw"])))
                        continue
                    t, f = self.branch(q, self.truth(c, s), s)
                    if t is not None:
                        out.extend(self.exec(s["a"], t))
                    if f is not None:
                        out.extend(self.exec(s["b"], f) if s.get("b") else [(f, None)])
        return out

    def s_switch(self, s, st):
        out = []
        pre = [q for q, _ in self.exec(s["init"], st)] if s.get("init") else [st]
        body = s["body"]
        stmts = body["s"] if body["k"] == "seq" else [body]
        # flatten labels
        flat = []

        def fl(x):
            if x["k"] in ("case", "default"):
                flat.append(("lab", x))
                fl(x["s"])
            else:
                flat.append(("st", x))
        for x in stmts:
            fl(x)
        for p in pre:
            for q, v in self.ev_num(s["c"], p):
                rest = q
                targets = []
                default = None
                for j, (kk, x) in enumerate(flat):
                    if kk != "lab":
                        continue
                    if x["k"] == "default":
                        default = j
                        continue
                    if rest is None:
                        break
                    for _, cv in self.ev_num(x["v"], rest):
                        t, rest = self.branch(rest, eq(v - cv), s)
                        if t is not None:
                            targets.append((t, j))
                        break
                if rest is not None:
                    targets.append((rest, default if default is not None else len(flat)))
                for t, j in targets:
                    cur = [(t, None)]
                    for kk, x in flat[j:]:
                        if kk == "lab":
                            continue
                        nxt = []
                        for z, sig in cur:
                            if sig is not None:
                                nxt.append((z, sig))
                            else:
                                nxt.extend(self.chkthrow(self.exec(x, z)))
                        cur = nxt
                    for z, sig in cur:
                        out.append((z, None if sig == ("break",) else sig))
        return out

    def s_break(self, s, st):
        return [(st, ("break",))]

    def s_continue(self, s, st):
        return [(st, ("continue",))]

    def s_try(self, s, st):
        self.broken("try block", s)

    # ------------------------------------------------------------ loops
    def s_for(self, s, st):
        pre = [q for q, _ in self.exec(s["init"], st)] if s.get("init") else [st]
        out = []
        for p in pre:
            out.extend(self.loop(s, p, s.get("c"), s.get("inc"), s["body"], cv=s.get("cv")))
        return out

    def s_while(self, s, st):
        return self.loop(s, st, s["c"], None, s["body"], cv=s.get("cv"))

    def s_do(self, s, st):
        # body once, then a while loop
        out = []
        for q, sig in self.chkthrow(self.exec(s["body"], st)):
            if sig == ("break",):
                out.append((q, None))
            elif sig is None or sig == ("continue",):
                out.extend(self.loop(s, q, s["c"], None, s["body"]))
            else:
                out.append((q, sig))
        return out

    def s_rfor(self, s, st):
        pre = [q for q, _ in self.exec(s["init"], st)] if s.get("init") else [st]
        out = []
        for p in pre:
            for q, l in self.lv(s["range"], p):
                l = self.resolve(q, l)
                fr = q.x.get("frame", 0)
                hid = -1000000 - s.get("l", 0) * 7
                ir = ("v", fr, hid)
                q.store[ir] = ZERO
                v = s["var"]
                idx = {"k": "var", "id": hid, "n": "__i", "t": "unsigned long", "l": s.get("l")}
                rr = ("v", fr, hid - 1)
                q.store[rr] = RefV(self.itgens(q, l))
                rng = {"k": "var", "id": hid - 1, "n": "__range", "t": s.get("rt"), "l": s.get("l")}
                cond = {"k": "bin", "op": "<", "a": idx, "b": {"k": "mcall", "b": rng, "n": "size", "bt": s.get("rt"),
                                                              "args": [], "arrow": False, "l": s.get("l"), "fn": "size"},
                        "t": "bool", "l": s.get("l")}
                inc = {"k": "un", "op": "++", "e": idx, "t": "int", "l": s.get("l")}
                d = dict(v)
                el = {"k": "idx", "b": rng, "i": idx, "t": d.get("t"), "l": s.get("l")}
                d["init"] = el
                body = s.setdefault("_rbody", {"k": "seq", "s": [{"k": "decl", "d": [d], "l": s.get("l")}, s["body"]], "l": s.get("l")})
                out.extend(self.loop(s, q, cond, inc, body))
        return out

    def evcond(self, cond, st, cv, s):
        """-> (true states, false states)"""
        ts, fs = [], []
        sts = self.declare(cv, st) if cv else [st]
        for p in sts:
            if cond is None:
                ts.append(p)
                continue
            for q, c in self.ev(cond, p):
                t, f = self.branch(q, self.truth(c, s), s)
                if t is not None:
                    ts.append(t)
                if f is not None:
                    fs.append(f)
        return ts, fs

    def loop(self, s, st, cond, inc, body, cv=None):
        key = id(s)
        if key not in self.nounroll:
            st0 = st.copy()
            g, gn = self.guard, getattr(self, "guardn", 0)
            r0 = self.rec
            self.guard = 1
            self.guardn = 0
            m = self.model
            mark = len(m.pending)
            m.depth += 1
            ok = False
            try:
                res = self.unroll(s, st0, cond, inc, body, cv)
                ok = True
                self.stats["loops"].add((self.fstack[-1]["file"], s.get("l"), "unrolled"))
                if g:
                    pass
                return res
            except Abandon:
                pass
            finally:
                self.guard, self.guardn, self.rec = g, gn, r0
                m.depth -= 1
                if not ok:
                    del m.pending[mark:]
                elif m.depth == 0:
                    m.flush()
            # small constant trip counts: allow a few forks
            self.nounroll.add(key)
            if s.setdefault("_small", None) is None:
                s["_small"] = self.model.small_loop(self, s, st, cond, inc, body) or self.twice(s, st, cond, inc, body, cv)
        if s.get("_small"):
            st0 = st.copy()
            try:
                return self.unroll(s, st0, cond, inc, body, cv, True)
            except Abandon:
                if self.guard:
                    raise
                s["_small"] = False
        if self.guard:
            raise Abandon()
        return self.absloop(s, st, cond, inc, body, cv)

    def straight(self, n):
        """no branch of its own"""
        if isinstance(n, list):
            return all(self.straight(x) for x in n)
        if not isinstance(n, dict):
            return True
        k = n.get("k")
        if k in ("if", "cond", "switch", "while", "do", "try") or k == "bin" and n.get("op") in ("&&", "||") or \
                k in ("call", "mcall", "opcall", "ctor") and n.get("user"):
            return False
        return all(self.straight(v) for x, v in n.items() if not x.startswith("_"))

    def leaver(self, n):
        """a body that does nothing but leave the loop under a condition"""
        if n is None:
            return True
        if n["k"] == "seq":
            return all(self.leaver(x) for x in n["s"])
        if n["k"] == "if":
            return self.calm(n["c"]) and not n.get("b") and self.gone(n.get("a"))
        return n["k"] == "decl" and self.straight(n)

    def marker(self, n):
        """a body that does nothing but note something under a condition"""
        if n is None:
            return True
        if n["k"] == "seq":
            return all(self.marker(x) for x in n["s"])
        if n["k"] == "if":
            return self.calm(n["c"]) and not n.get("b") and self.straight(n.get("a"))
        return n["k"] in ("decl", "expr") and self.calm(n) or self.straight(n)

    def split(self, body):
        """(body, last step) of a loop whose body ends with the step of its counter"""
        if body["k"] != "seq" or len(body["s"]) < 2 or self.continues(body):
            return body, None
        x = body["s"][-1]
        y = x.get("e") if x["k"] == "expr" else x
        if not isinstance(y, dict) or y["k"] not in ("un", "post", "asg") or not self.straight(y):
            return body, None
        return {"k": "seq", "s": body["s"][:-1], "l": body.get("l")}, y

    def continues(self, n):
        if isinstance(n, list):
            return any(self.continues(x) for x in n)
        return isinstance(n, dict) and (n.get("k") == "continue" or any(self.continues(v) for x, v in n.items() if not x.startswith("_")))

    def gone(self, n):
        if n is None:
            return False
        if n["k"] == "seq":
            return bool(n["s"]) and all(self.straight(x) for x in n["s"]) and self.gone(n["s"][-1])
        return n["k"] in ("ret", "break") and self.straight(n)

    def calm(self, n):
        if isinstance(n, list):
            return all(self.calm(x) for x in n)
        if not isinstance(n, dict):
            return True
        if n.get("k") in ("call", "mcall", "ctor") and n.get("user"):
            return False
        return all(self.calm(v) for x, v in n.items() if not x.startswith("_"))

    def twice(self, s, st, cond, inc, body, cv):
        """the counter alone ends the loop after at most two turns (four without
        branches): all are followed, whatever paths the body has"""
        if inc is None and cond is not None:
            body, inc = self.split(body)
        if cond is None or inc is None:
            return False
        top = 8 if self.leaver(body) else 4 if self.straight(body) or self.marker(body) else 2
        m = self.model
        mark, g, gn = len(m.pending), self.guard, getattr(self, "guardn", 0)
        m.depth += 1
        self.guard, self.guardn = 1, 0
        try:
            cur = st.copy()
            for n in range(top + 1):
                ts, fs = self.evcond(cond, cur, cv, s)
                if len(ts) + len(fs) != 1:
                    return False
                if fs:
                    return n + 1 if n > 1 else False
                nx = [q for q, _ in self.ev(inc, ts[0])]
                if len(nx) != 1:
                    return False
                cur = nx[0]
            return False
        except Abandon:
            return False
        finally:
            self.guard, self.guardn = g, gn
            m.depth -= 1
            del m.pending[mark:]

    def unroll(self, s, st, cond, inc, body, cv, forks=False):
        cur = [st]
        out = []
        n = 0
        while cur:
            n += 1
            lim = s["_small"] if forks and s.get("_small") not in (None, True, False) else 6
            if n > LOOPMAX + 2 or (forks and (n > lim or len(cur) > (64 if lim == 6 else 32 * lim))):
                raise Abandon()
            nxt = []
            for q in cur:
                if cond is None and n > LOOPMAX:
                    raise Abandon()
                ts, fs = self.evcond(cond, q, cv, s)
                if not forks and len(ts) + len(fs) > 1:
                    raise Abandon()
                out.extend((f, None) for f in fs)
                for t in ts:
                    for b, sig in self.chkthrow(self.exec(body, t)):
                        if sig is None or sig == ("continue",):
                            if inc is not None:
                                nxt.extend(x for x, _ in self.ev(inc, b))
                            else:
                                nxt.append(b)
                        elif sig == ("break",):
                            out.append((b, None))
                        else:
                            out.append((b, sig))
            if not forks and len(nxt) > 1:
                raise Abandon()
            cur = nxt
        return out

    # ---------------------------------------------------------------- abstract loop
    def absloop(self, s, st, cond, inc, body, cv):
        from .loops import AbsLoop
        self.stats["loops"].add((self.fstack[-1]["file"], s.get("l"), "fixpoint"))
        return AbsLoop(self, s, st, cond, inc, body, cv).run()
