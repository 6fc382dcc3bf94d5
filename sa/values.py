"""Abstract values and machine state."""
from .poly import Poly, K, A, ZERO, ONE
from .logic import Bx


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()


class Str:
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)

    def where(self, ch, last):
        """(part, offset) of the last or first occurrence of a character that is not part of a number"""
        idx = range(len(self.parts))
        for i in (reversed(idx) if last else idx):
            p = self.parts[i]
            if isinstance(p, str):
                k = p.rfind(ch) if last else p.find(ch)
                if k >= 0:
                    return (i, k)
            elif p[0] == "num" and not (ch.isdigit() or ch in "+-.einf"):
                continue
            elif p[0] == "rep" and p[2].cval() is not None and chr(p[2].cval()) != ch:
                continue
            else:
                return None
        return None

    def const(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __eq__(self, o):
        return isinstance(o, Str) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "Str%r" % (self.parts,)


class Struct:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def set(self, n, v):
        f = dict(self.f)
        f[n] = v
        return Struct(self.name, f)

    def __eq__(self, o):
        return isinstance(o, Struct) and (self is o or (self.name == o.name and self.f == o.f))

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "%s%r" % (self.name.split("::")[-1], self.f)


class VList:
    """a sequence of known length"""
    __slots__ = ("items", "et", "gen")

    def __init__(self, items, et=None, gen=0):
        self.items, self.et, self.gen = tuple(items), et, gen

    def set(self, i, v):
        return VList(self.items[:i] + (v,) + self.items[i + 1:], self.et, self.gen)

    def __eq__(self, o):
        return isinstance(o, VList) and (self is o or self.items == o.items)

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "[" + ",".join(map(repr, self.items)) + "]"


class Perm:
    """a permutation (unknown order) of known rows"""
    __slots__ = ("rows", "ver", "et", "gen")

    def __init__(self, rows, ver, et=None, gen=0):
        self.rows, self.ver, self.et, self.gen = tuple(rows), ver, et, gen

    def bag(self):
        return sorted(map(repr, self.rows))

    def __eq__(self, o):
        return isinstance(o, Perm) and self.ver == o.ver and self.rows == o.rows

    def __hash__(self):
        return hash(self.ver)

    def __repr__(self):
        return "Perm#%s%r" % (self.ver, list(self.rows))


class Rng:
    """a half-open interval of indices used as a key component"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __eq__(self, o):
        return isinstance(o, Rng) and self.lo == o.lo and self.hi == o.hi

    def __hash__(self):
        return hash((self.lo, self.hi))

    def __repr__(self):
        return "[%s..%s)" % (self.lo, self.hi)


class Sym:
    """an array (or vector) of unknown length / contents"""
    __slots__ = ("name", "tag", "depth", "leaf", "ep", "log", "size", "sum", "fill", "pats", "gen", "reads")

    def __init__(self, name, tag, depth, leaf, ep, log=(), size=None, sum=None, fill=None, pats=None, gen=0,
                 reads=None):
        self.name, self.tag, self.depth, self.leaf = name, tag, depth, leaf
        self.ep, self.log, self.size, self.sum = ep, log, size, sum
        self.fill, self.pats, self.gen, self.reads = fill, pats, gen, reads or {}

    def rep(self, **kw):
        d = {k: getattr(self, k) for k in Sym.__slots__}
        d.update(kw)
        return Sym(**d)

    def fields(self):
        if self.leaf[0] == "fields":
            return self.leaf[1]
        return ("",)

    def same(self, o):
        return (isinstance(o, Sym) and (self is o or (
            self.name == o.name and self.ep == o.ep and self.log == o.log and self.size == o.size
            and self.sum == o.sum and self.fill == o.fill)))

    def __eq__(self, o):
        return self.same(o)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "Sym(%s,%s,size=%s,log=%s)" % (self.name, self.ep, self.size, list(self.log))


class LV:
    __slots__ = ("root", "path", "gens")

    def __init__(self, root, path=(), gens=None):
        self.root, self.path, self.gens = root, tuple(path), gens

    def f(self, n):
        return LV(self.root, self.path + (("f", n),), self.gens)

    def i(self, p):
        return LV(self.root, self.path + (("i", p),), self.gens)

    def __eq__(self, o):
        return isinstance(o, LV) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return "%s%s" % (self.root, "".join(".%s" % p[1] if p[0] == "f" else "[%s]" % p[1] for p in self.path))


class RefV:
    """a reference variable"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, RefV) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return "&%r" % (self.lv,)


class Ptr:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv          # None: null

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return "ptr(%r)" % (self.lv,)


class Iter:
    __slots__ = ("lv", "idx")

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx

    def __eq__(self, o):
        return isinstance(o, Iter) and self.lv == o.lv and self.idx == o.idx

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return "iter(%r,%s)" % (self.lv, self.idx)


class Lam:
    __slots__ = ("e", "caps", "this")

    def __init__(self, e, caps, this):
        self.e, self.caps, self.this = e, caps, this

    def __eq__(self, o):
        return self is o or (isinstance(o, Lam) and self.e is o.e and self.caps == o.caps)

    def __hash__(self):
        return id(self.e)


class Opaque:
    __slots__ = ("tag", "args")

    def __init__(self, tag, *args):
        self.tag, self.args = tag, args

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.tag == o.tag and self.args == o.args

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return "<%s %s>" % (self.tag, ",".join(map(repr, self.args)))


class Ev:
    """an observable event"""
    __slots__ = ("kind", "d", "loc")

    def __init__(self, kind, loc, **d):
        self.kind, self.loc, self.d = kind, loc, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "%s@%s:%s %s" % (self.kind, self.loc[0], self.loc[1],
                                {k: v for k, v in self.d.items() if k != "facts"})


class St:
    __slots__ = ("store", "facts", "ghost", "seg", "trace", "depth", "x")

    def __init__(self, facts):
        self.store, self.facts = {}, facts
        self.ghost, self.seg, self.trace, self.depth, self.x = {}, (), (), 0, {}

    def copy(self):
        s = St.__new__(St)
        s.store = dict(self.store)
        s.facts = self.facts.copy()
        s.ghost = dict(self.ghost)
        s.seg, s.trace, s.depth, s.x = self.seg, self.trace, self.depth, dict(self.x)
        return s
