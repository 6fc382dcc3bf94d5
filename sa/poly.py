"""Value numbers: interned atoms and (Laurent) polynomials over them.

Exact arithmetic.  Two facts about units are built in:
 * an atom flagged `ht` denotes a height that is a whole multiple of the cell
   height C (the invariant that property C06 checks at every write);
 * an atom flagged `isint` is integer valued.
`TOL` is a positive infinitesimal compared with C.
"""
from fractions import Fraction
from math import gcd


class Atom:
    __slots__ = ("id", "kind", "name", "args", "isint", "ht", "dom", "dim", "deep", "attrs")

    def __init__(self, id, kind, name, args):
        self.id, self.kind, self.name, self.args = id, kind, name, args
        self.isint = self.ht = False
        self.dom = None      # finite domain (tuple of ints)
        self.dim = None      # axis/unit tag
        self.attrs = None
        deep = {id}
        for a in args:
            if isinstance(a, Poly):
                deep |= a.deep()
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Poly):
                        deep |= b.deep()
        self.deep = frozenset(deep)

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_INTERN = {}


def atom(kind, name, args=(), isint=False, ht=False, dom=None, dim=None):
    key = (kind, name, args)
    a = _INTERN.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, name, args)
        ATOMS.append(a)
        _INTERN[key] = a
        a.isint, a.ht, a.dom, a.dim = isint, ht, dom, dim
    return a


_fresh = [0]


def fresh(name, **kw):
    _fresh[0] += 1
    return atom("fresh", "%s'%d" % (name, _fresh[0]), (), **kw)


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h", "_deep", "_key")

    def __init__(self, t):
        self.t = t
        self._h = self._deep = self._key = None

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def deep(self):
        if self._deep is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= ATOMS[a].deep
            self._deep = frozenset(s)
        return self._deep

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def cval(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = K(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _norm(v)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = K(o)
        return self + (-o)

    def __rsub__(self, o):
        return K(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        c = o.cval()
        if c is not None:
            return self.scale(c)
        c = self.cval()
        if c is not None:
            return o.scale(c)
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = _norm(v)
        return Poly(r)

    __rmul__ = __mul__

    def single(self):
        """(atom, coef, exp) list if one monomial"""
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None

    def as_atom(self):
        """the Atom if the poly is exactly 1*atom"""
        if len(self.t) == 1:
            m, c = next(iter(self.t.items()))
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def inv(self):
        """1/self"""
        if not self.t:
            return None
        if len(self.t) == 1:
            m, c = next(iter(self.t.items()))
            return Poly({tuple((a, -e) for a, e in m): _norm(Fraction(1) / c)})
        # normalise by a leading coefficient so that k*P and P share the atom
        lead = min(self.t, key=mono_order)
        k = self.t[lead]
        p = self.scale(Fraction(1) / k)
        a = atom("app", "den", (p,))
        return Poly({((a.id, -1),): _norm(Fraction(1) / k)})

    def __repr__(self):
        return show(self)


def mono_order(m):
    return (len(m), m)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v == 0:
            del d[a]
        else:
            d[a] = v
    return tuple(sorted(d.items()))


def K(c):
    if isinstance(c, Poly):
        return c
    if isinstance(c, float):
        c = _norm(Fraction(repr(c)))
    if c == 0:
        return ZERO
    return Poly({(): _norm(c)})


ZERO = Poly({})
ONE = Poly({(): 1})


def A(a):
    return Poly({((a.id, 1),): 1})


# ------------------------------------------------------------ special atoms
CELLZ = atom("par", "cell_size_z", dim=("", "cz"))
CELLXY = atom("par", "cell_size_xy", dim=("", "cxy"))
TOL = atom("par", "tol")
BIG = atom("par", "huge")    # the largest float, or infinity: above every finite quantity
C = A(CELLZ)


def mono_val(m):
    """power of the cell height carried by an integer multiple, or None when
    the monomial is not an integer multiple of a power of the cell height"""
    p = 0
    for a, e in m:
        at = ATOMS[a]
        if at is CELLZ:
            p += e
        elif at.ht and e > 0:
            p += e
        elif at.isint and e > 0:
            pass
        else:
            return None
    return p


def is_int(p):
    for m, c in p.t.items():
        if not isinstance(c, int) or mono_val(m) != 0:
            return False
    return True


def is_ht(p):
    """whole multiple of the cell height"""
    for m, c in p.t.items():
        if not isinstance(c, int) or mono_val(m) != 1:
            return False
    return True


def denom(p):
    d = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            d = d * c.denominator // gcd(d, c.denominator)
    return d


# ------------------------------------------------------------ substitution
REBUILD = {}   # kind/name -> function(args) -> Poly


def subst(p, sub, memo=None):
    """deep substitution of atoms: sub maps atom id -> Poly"""
    if not sub or not (p.deep() & sub.keys()):
        return p
    if memo is None:
        memo = {}
    r = ZERO
    for m, c in p.t.items():
        q = K(c)
        for a, e in m:
            q = q * ppow(subst_atom(a, sub, memo), e)
        r = r + q
    return r


def subst_arg(x, sub, memo):
    if isinstance(x, Poly):
        return subst(x, sub, memo)
    if isinstance(x, tuple):
        return tuple(subst_arg(y, sub, memo) for y in x)
    return x


def subst_atom(aid, sub, memo):
    if aid in memo:
        return memo[aid]
    if aid in sub:
        r = sub[aid]
        # substitutions are kept idempotent by the caller
    else:
        at = ATOMS[aid]
        if not (at.deep & sub.keys()):
            r = A(at)
        else:
            args = tuple(subst_arg(x, sub, memo) for x in at.args)
            fn = REBUILD.get((at.kind, at.name)) or REBUILD.get(at.kind)
            if fn:
                r = fn(at, args)
            else:
                r = A(atom(at.kind, at.name, args, at.isint, at.ht, at.dom, at.dim))
    memo[aid] = r
    return r


def ppow(p, e):
    if e == 1:
        return p
    if e == 0:
        return ONE
    if e < 0:
        q = p.inv()
        if q is None:
            return A(atom("app", "divzero", (p,)))
        return ppow(q, -e)
    r = p
    for _ in range(e - 1):
        r = r * p
    return r


# ------------------------------------------------------------ printing
def show_atom(a):
    if a.kind in ("par", "fresh"):
        return a.name
    args = []
    for x in a.args:
        if isinstance(x, tuple):
            args.append("[" + ",".join(str(y) for y in x) + "]")
        else:
            args.append(str(x))
    return "%s(%s)" % (a.name, ",".join(args))


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: mono_order(kv[0])):
        s = "*".join(show_atom(ATOMS[a]) + ("^%d" % e if e != 1 else "") for a, e in m)
        if not s:
            t = str(c)
        elif c == 1:
            t = s
        elif c == -1:
            t = "-" + s
        else:
            t = "%s*%s" % (c, s)
        out.append(t)
    return " + ".join(out).replace("+ -", "- ")
