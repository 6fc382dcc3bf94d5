"""Conditions (boolean expressions over polynomial literals), their canonical
forms, and the numeric abstract domain: a conjunction of linear constraints
over monomials (a convex-polyhedra style domain with integer tightening, decided
by exact Fourier-Motzkin elimination), kept reduced with respect to a set of
solved affine equalities.

Alignment: heights are whole multiples of the cell height C and `tol` is
positive and negligible against C, so a comparison "X + tol < Y" between
aligned quantities is the exact comparison "X < Y" between multiples of C.
"""
from fractions import Fraction
from math import gcd
from . import poly as P
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, CELLZ, TOL, mono_val, is_int, is_ht, subst

CELLZ_M = ((CELLZ.id, 1),)
TOL_M = ((TOL.id, 1),)


# ------------------------------------------------------------------ literals
class Bx:
    """boolean expression: op in T F ge gt eq ne and or"""
    __slots__ = ("op", "a", "_deep", "_not", "__weakref__")
    tab = {}

    def __new__(cls, op, a=None):
        # every expression exists once: equality is identity
        k = (op, a)
        r = cls.tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op, r.a = op, a
            r._deep = r._not = None
            cls.tab[k] = r
        return r

    def deep(self):
        if self._deep is None:
            if self.op in ("T", "F"):
                self._deep = frozenset()
            elif self.op in ("and", "or"):
                s = set()
                for x in self.a:
                    s |= x.deep()
                self._deep = frozenset(s)
            else:
                self._deep = self.a.deep()
        return self._deep

    def __repr__(self):
        if self.op in ("T", "F"):
            return "true" if self.op == "T" else "false"
        if self.op in ("and", "or"):
            return "(" + (" && " if self.op == "and" else " || ").join(map(repr, self.a)) + ")"
        return "%s %s 0" % (self.a, {"ge": ">=", "gt": ">", "eq": "==", "ne": "!="}[self.op])


T = Bx("T")
F = Bx("F")

_normcache = {}


def lit(op, p):
    key = (op, p)
    r = _normcache.get(key)
    if r is None:
        r = _lit(op, p)
        if len(_normcache) > 400000:
            _normcache.clear()
        _normcache[key] = r
    return r


def _truth(b):
    return T if b else F


def content(p):
    """make coefficients integers; return integer poly (positive scaling)"""
    d = P.denom(p)
    if d != 1:
        p = p.scale(d)
    return p


def _min_c_exp(p):
    m = None
    cid = CELLZ.id
    for mono in p.t:
        e = 0
        for a, x in mono:
            if a == cid:
                e = x
                break
        if m is None or e < m:
            m = e
    return m or 0


def shift_c(p, k):
    """p * C^k"""
    return p * Poly({((CELLZ.id, k),): 1})


def _lit(op, p):
    c = p.cval()
    if c is not None:
        return _truth({"ge": c >= 0, "gt": c > 0, "eq": c == 0, "ne": c != 0}[op])
    p = content(p)
    e = _min_c_exp(p)
    if e:
        p = shift_c(p, -e)
        c = p.cval()
        if c is not None:
            return _lit(op, p)
    if op in ("eq", "ne") and len(p.t) == 1:
        # a product vanishes iff a factor does
        (m, c), = p.t.items()
        fac = [a for a, x in m if x > 0 and a not in POS and a != CELLZ.id and a != TOL.id]
        if any(x < 0 for a, x in m) or len(fac) != len(m) or len(m) > 1 or m[0][1] != 1:
            bs = [lit(op, A(ATOMS[a])) for a in fac]
            if not bs:
                return _truth(op == "ne")
            return Or(*bs) if op == "eq" else And(*bs)
    if op in ("eq", "ne") and len(p.t) > 1:
        com = None
        for m in p.t:
            at = {a for a, x in m if x > 0 and a != TOL.id}
            com = at if com is None else com & at
            if not com:
                break
        if com:
            a = min(com)
            rest = Poly({tuple((b, x - (b == a)) for b, x in m if x - (b == a)): c for m, c in p.t.items()})
            if a in POS:
                return lit(op, rest)
            bs = (lit(op, A(ATOMS[a])), lit(op, rest))
            return Or(*bs) if op == "eq" else And(*bs)
    kt = p.t.get(TOL_M, 0)
    q = p
    if kt:
        q = Poly({m: c for m, c in p.t.items() if m != TOL_M})
    unit = None
    if q.t:
        if is_ht(q):
            unit = CELLZ_M
        elif is_int(q):
            unit = ()
    elif kt:
        # k*tol compared with zero
        return _truth({"ge": kt > 0, "gt": kt > 0, "eq": False, "ne": True}[op])
    if unit is not None:
        if op in ("eq", "ne"):
            if kt:
                return _truth(op == "ne")
            c0 = q.t.get(unit, 0)
            g = 0
            for m, c in q.t.items():
                if m != unit:
                    g = gcd(g, c)
            if g == 0:
                return _truth((c0 == 0) == (op == "eq"))
            if c0 % g:
                return _truth(op == "ne")
            q = Poly({m: c // g for m, c in q.t.items()})
            lead = min(q.t, key=P.mono_order)
            if q.t[lead] < 0:
                q = -q
            return Bx(op, q)
        # inequality: q + kt*tol >(=) 0  ->  q >= 0 or q >= unit
        strict = (op == "gt" and kt <= 0) or (op == "ge" and kt < 0)
        c0 = q.t.get(unit, 0) - (1 if strict else 0)
        g = 0
        for m, c in q.t.items():
            if m != unit:
                g = gcd(g, c)
        if g == 0:
            return _truth(c0 >= 0)
        t = {m: c // g for m, c in q.t.items() if m != unit}
        c0 = c0 // g      # floor
        if c0:
            t[unit] = c0
        return Bx("ge", Poly(t))
    # generic real-valued literal
    g = 0
    for m, c in p.t.items():
        g = gcd(g, c)
    if g > 1:
        p = Poly({m: c // g for m, c in p.t.items()})
    if op in ("eq", "ne"):
        lead = min(p.t, key=P.mono_order)
        if p.t[lead] < 0:
            p = -p
    s = sign_of(p)
    if s is not None:
        if op == "gt":
            return _truth(s > 0)
        if op == "ge" and s != 0:
            return _truth(s > 0)
        if op in ("eq", "ne") and s != 0:
            return _truth(op == "ne")
    return Bx(op, p)


POS = set()   # atom ids known strictly positive


def sign_of(p):
    """sign if every monomial is a product of positive atoms with equal sign"""
    s = None
    for m, c in p.t.items():
        for a, e in m:
            if a not in POS and e % 2:
                return None
            if a not in POS:
                return None
        x = 1 if c > 0 else -1
        if s is None:
            s = x
        elif s != x:
            return None
    return s


POS.add(CELLZ.id)
POS.add(P.CELLXY.id)
POS.add(TOL.id)
POS.add(P.BIG.id)


def ge(p):
    return lit("ge", p)


def gt(p):
    return lit("gt", p)


def eq(p):
    return lit("eq", p)


def ne(p):
    return lit("ne", p)


def Not(b):
    r = b._not
    if r is None:
        r = b._not = _not(b)
    return r


def _not(b):
    o = b.op
    if o == "T":
        return F
    if o == "F":
        return T
    if o == "ge":
        return lit("gt", -b.a)
    if o == "gt":
        return lit("ge", -b.a)
    if o == "eq":
        return lit("ne", b.a)
    if o == "ne":
        return lit("eq", b.a)
    if o == "and":
        return Or(*[Not(x) for x in b.a])
    return And(*[Not(x) for x in b.a])


def And(*xs):
    out = []
    for x in xs:
        if x.op == "F":
            return F
        if x.op == "T":
            continue
        if x.op == "and":
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return Bx("and", tuple(out))


def Or(*xs):
    out = []
    for x in xs:
        if x.op == "T":
            return T
        if x.op == "F":
            continue
        if x.op == "or":
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return Bx("or", tuple(out))


def bsubst(b, sub, memo=None):
    if not sub or b.op in ("T", "F") or not (b.deep() & sub.keys()):
        return b
    if memo is None:
        memo = {}
    if b.op == "and":
        return And(*[bsubst(x, sub, memo) for x in b.a])
    if b.op == "or":
        return Or(*[bsubst(x, sub, memo) for x in b.a])
    return lit(b.op, subst(b.a, sub, memo))


# ------------------------------------------------------------------ LP / FM
def mono_nc(m):
    """monomial with the cell height set to one (unit of length)"""
    cid = CELLZ.id
    for a, e in m:
        if a == cid:
            return tuple(x for x in m if x[0] != cid)
    return m


def mono_intval(m):
    for a, e in m:
        at = ATOMS[a]
        if not (e > 0 and (at.isint or at.ht)):
            return False
    return True


def grade(m):
    g = 0
    for a, e in m:
        at = ATOMS[a]
        if at.isint:
            continue
        if at is CELLZ or at.ht or at is TOL or at is P.CELLXY:
            g += e
        else:
            return None
    return g


def homogeneous(p):
    g0 = None
    for m in p.t:
        g = grade(m)
        if g is None:
            return True
        if g0 is None:
            g0 = g
        elif g0 != g:
            return False
    return True


def to_con(op, p):
    """-> (frozen items, const, strict) meaning sum + const >(=) 0"""
    if not homogeneous(p):
        return None
    t = {}
    c0 = 0
    for m, c in p.t.items():
        m = mono_nc(m)
        if not m:
            c0 += c
        else:
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return normcon(t, c0, op == "gt")


def normcon(t, c0, strict):
    """normalise; returns (items tuple, const, strict) | True | False"""
    if not t:
        return (c0 > 0) if strict else (c0 >= 0)
    g = 0
    for c in t.values():
        if isinstance(c, Fraction):
            break
        g = gcd(g, c)
    else:
        if not isinstance(c0, Fraction):
            allint = True
            for m in t:
                if not _intm(m):
                    allint = False
                    break
            if allint:
                if strict:
                    c0 -= 1
                    strict = False
                if g > 1:
                    t = {m: c // g for m, c in t.items()}
                    c0 = c0 // g
                return (tuple(sorted(t.items())), c0, strict)
            if g > 1:
                g = gcd(g, c0)
                if g > 1:
                    t = {m: c // g for m, c in t.items()}
                    c0 //= g
            return (tuple(sorted(t.items())), c0, strict)
    # fractional coefficients
    d = 1
    for c in list(t.values()) + [c0]:
        if isinstance(c, Fraction):
            d = d * c.denominator // gcd(d, c.denominator)
    t = {m: int(c * d) for m, c in t.items()}
    return normcon(t, int(c0 * d), strict)


_intm_cache = {}


def _intm(m):
    r = _intm_cache.get(m)
    if r is None:
        r = _intm_cache[m] = mono_intval(m)
    return r


TOLCONS = [to_con("gt", A(TOL)), to_con("gt", K(Fraction(1, 1000)) * C - A(TOL))]

_fmcache = {}
STATS = {"fm": 0, "fmhit": 0, "giveup": 0}


def infeasible(cons):
    """cons: iterable of normalised constraints. True when provably infeasible."""
    cons = [c for c in cons if c is not True and c is not None]
    for c in cons:
        if c is False:
            return True
    key = frozenset(cons)
    r = _fmcache.get(key)
    if r is not None:
        STATS["fmhit"] += 1
        return r
    STATS["fm"] += 1
    r = _fm(list(key))
    if len(_fmcache) > 300000:
        _fmcache.clear()
    _fmcache[key] = r
    return r


def _fm(cons):
    # best[form] = (const, strict): keep the tightest
    cur = {}

    def put(d, con):
        if con is True:
            return True
        if con is False:
            return False
        f, c0, s = con
        o = d.get(f)
        if o is None or c0 < o[0] or (c0 == o[0] and s and not o[1]):
            d[f] = (c0, s)
        return True

    for c in cons:
        if not put(cur, c):
            return True
    rounds = 0
    while cur:
        # direct contradictions between a form and its negation
        for f, (c0, s) in cur.items():
            nf = tuple((m, -c) for m, c in f)
            o = cur.get(nf)
            if o is not None:
                tot = c0 + o[0]
                if tot < 0 or (tot == 0 and (s or o[1])):
                    return True
        pos, neg = {}, {}
        for f in cur:
            for m, c in f:
                if c > 0:
                    pos.setdefault(m, []).append(f)
                else:
                    neg.setdefault(m, []).append(f)
        # one-sided variables: all their constraints are satisfiable
        drop = set()
        for m, fs in pos.items():
            if m not in neg:
                drop.update(fs)
        for m, fs in neg.items():
            if m not in pos:
                drop.update(fs)
        if drop:
            for f in drop:
                del cur[f]
            continue
        best = None
        for m in pos:
            np_, nn_ = len(pos[m]), len(neg[m])
            cost = np_ * nn_ - np_ - nn_
            if best is None or cost < best[0]:
                best = (cost, m)
        if best is None:
            return False
        cost, m = best
        rounds += 1
        if len(cur) + cost > 700 or rounds > 60:
            STATS["giveup"] += 1
            return False
        fp = [(f, cur[f]) for f in pos[m]]
        fn = [(f, cur[f]) for f in neg[m]]
        for f, _ in fp:
            del cur[f]
        for f, _ in fn:
            del cur[f]
        for f, (c1, s1) in fp:
            d1 = dict(f)
            a = d1[m]
            for g, (c2, s2) in fn:
                d2 = dict(g)
                b = -d2[m]
                t = {}
                for mm, c in d1.items():
                    if mm != m:
                        t[mm] = c * b
                for mm, c in d2.items():
                    if mm != m:
                        v = t.get(mm, 0) + c * a
                        if v:
                            t[mm] = v
                        else:
                            t.pop(mm, None)
                con = normcon(t, c1 * b + c2 * a, s1 or s2)
                if not put(cur, con):
                    return True
    return False
