"""C20: what the writers put into which file."""
import re
from . import cover, logic as L
from .poly import Poly, K, A, ZERO, ONE, ATOMS, atom, fresh, fresh_id
from .logic import ge, gt, eq, ne, Not, And, Or
from .model import NS, flat
from .values import *
from .soil import Obl, holds, path_of
from .valid import VModel, TOUCH, colvals, simsym
from .moved import CORNERS, corners


class FModel(VModel):
    """strings, files and corner positions as symbols"""
    marks = True

    def summary(self, ip, st, fd, vs, e, this):
        n = fd["name"]
        if n == CORNERS:
            args = []
            for v in vs[:2]:
                if isinstance(v, RefV):
                    v = ip.load(st, v.lv, e)[0][1]
                flat(ip, st, v, args)
            b = vs[2]
            if isinstance(b, RefV):
                b = ip.load(st, b.lv, e)[0][1]
            if not (isinstance(b, Ptr) and b.lv is not None and b.lv.root == ("body",)):
                args.append(A(atom("opq", "otherbody")))
            return [(st, corners(tuple(args)))]
        if self.top and n in (NS + "WriteSoil", NS + "WriteBody"):
            ip.emit(st, "writer", e, fn=n, args=tuple(vs))
            return [(st, Opaque("void"))]
        return super().summary(ip, st, fd, vs, e, this)

    top = False

    def test(self, ip, st, name, e):
        """[(state, does the file exist)]"""
        out = []
        for r in (True, False):
            s = st.copy()
            ip.emit(s, "exists", e, name=name, res=r)
            out.append((s, L.T if r else L.F))
        return out

    def libcall(self, ip, e, st, n, args):
        fn = e.get("fn") or ""
        if fn.startswith("std::source_location::current"):
            return [(st, Opaque("srcloc"))]
        if fn.startswith("std::filesystem::exists"):
            return [x for s, vs in ip.evs(args[:1], st) for x in self.test(ip, s, vs[0], e)]
        return super().libcall(ip, e, st, n, args)

    def ctor(self, ip, e, t, args, st):
        n = t[1] if t[0] == "opaque" else ""
        if n.startswith("std::filesystem::path"):
            return [(s, vs[0] if vs else Str([""])) for s, vs in ip.evs(args[:1], st)]
        k = "in" if "basic_ifstream" in n else "out" if "basic_ofstream" in n or "basic_fstream" in n else None
        if k is None:
            return super().ctor(ip, e, t, args, st)
        out = []
        for s, vs in ip.evs(args, st):
            v = Opaque("file", k, fresh_id(), vs[0] if vs else None)
            if vs and k == "out":
                ip.emit(s, "fopen", e, file=v.args[1], name=vs[0], mode=vs[1:])
            out.append((s, v))
        return out

    def method(self, ip, e, s, n, l, bt, args):
        out = []
        for s2, v in ip.load(s, l, e):
            if isinstance(v, Opaque) and v.tag == "srcloc" and n == "file_name":
                out.append((s2, Str([("srcfile",)])))
                continue
            if not (isinstance(v, Opaque) and v.tag == "file"):
                return None
            for s3, vs in ip.evs(args, s2):
                if n == "open":
                    v2 = Opaque("file", v.args[0], v.args[1], vs[0])
                    if v.args[0] == "out":
                        ip.emit(s3, "fopen", e, file=v.args[1], name=vs[0], mode=tuple(vs[1:]))
                    for s4 in ip.store(s3, l, v2, e):
                        out.append((s4, Opaque("void")))
                elif n in ("good", "is_open", "operator bool", "fail", "operator!"):
                    if v.args[0] == "out":
                        out.append((s3, L.F if n in ("fail", "operator!") else L.T))
                        continue
                    for s4, b in self.test(ip, s3, v.args[2], e):
                        out.append((s4, Not(b) if n in ("fail", "operator!") else b))
                elif n == "close":
                    if v.args[0] == "out":
                        ip.emit(s3, "fclose", e, file=v.args[1])
                    out.append((s3, Opaque("void")))
                elif n in ("flush", "precision", "setf", "width", "clear"):
                    out.append((s3, Opaque("void")))
                elif n in ("put", "write"):
                    ip.emit(s3, "out", e, file=v.args[1], val=vs[0])
                    out.append((s3, v))
                else:
                    return None
        return out

    def negate(self, ip, e, a, st):
        r = []
        for s, v in ip.ev(a, st):
            if not (isinstance(v, Opaque) and v.tag == "file"):
                return None
            if v.args[0] == "out":
                r.append((s, L.F))
            else:
                r += [(s2, Not(b)) for s2, b in self.test(ip, s, v.args[2], e)]
        return r

    def stream(self, ip, e, op, args, st):
        out = []
        for s, v in ip.ev(args[0], st):
            if isinstance(v, LV):
                v = ip.load(s, v, e)[0][1]
            if not (isinstance(v, Opaque) and v.tag == "file"):
                r = [s]
                for a in args[1:]:
                    r = [s3 for s2 in r for s3, _ in ip.ev(a, s2)]
                out += [(s2, v) for s2 in r]
                continue
            for a in args[1:]:
                x = a
                while isinstance(x, dict) and x.get("k") in ("cast", "copy"):
                    x = x["e"]
                if isinstance(x, dict) and x.get("k") == "fn":
                    ip.emit(s, "out", e, file=v.args[1], val=Str(["\n"]) if "endl" in str(x.get("n", x)) else Str([""]))
                    out.append((s, v))
                    continue
                for s2, w in ip.ev(a, s):
                    if isinstance(w, Poly) and (x.get("k") == "char" or a.get("t", "").replace("const ", "") == "char") and w.cval() is not None:
                        w = Str([chr(w.cval())])
                    ip.emit(s2, "out", e, file=v.args[1], val=w)
                    out.append((s2, v))
        return out


def rows(toks):
    """[[values of a row]], rest; a value is a list of pieces"""
    out, row, cell = [], [], []
    for t in toks:
        if isinstance(t, Str) and all(isinstance(p, str) for p in t.parts):
            for ch in "".join(t.parts):
                if ch == ",":
                    row.append(cell)
                    cell = []
                elif ch == "\n":
                    row.append(cell)
                    out.append(row)
                    row, cell = [], []
                elif cell and isinstance(cell[-1], str):
                    cell[-1] += ch
                else:
                    cell.append(ch)
        else:
            cell.append(t)
    return out, row or cell


HEAD = [["x"], ["y"], ["z"]]


def same(f, a, b):
    """the same file name"""
    if not isinstance(a, Str) or not isinstance(b, Str) or len(a.parts) != len(b.parts):
        return False
    for p, q in zip(a.parts, b.parts):
        if isinstance(p, str) or isinstance(q, str):
            if p != q:
                return False
            continue
        if p[0] != q[0] or len(p) != len(q):
            return False
        for x, y in zip(p[1:], q[1:]):
            if isinstance(x, Poly) and isinstance(y, Poly):
                if f.norm(x - y) != ZERO:
                    return False
            elif repr(x) != repr(y):
                return False
    return True


class Files(Obl):
    def __init__(self, series):
        super().__init__()
        self.series = series
        self.nest = {}

    # ---------------- structure of a path
    def touch(self, seg):
        for e in seg:
            if e.kind in TOUCH:
                r = e.d.get("root") or (e.lv.root if "lv" in e.d and hasattr(e.lv, "root") else None)
                if r in (("sim",), ("body",), ("grid",)) or e.kind == "static" or (r is None and e.d.get("tag") in ("terrain", "body", "bsoil", "recs")):
                    self.ob(e.loc, False, "writing outputs changes the simulation", event=e.kind)

    def iteration(self, ip, loop, head, back):
        self.touch(back.seg[len(head.seg):])
        self.n += 1

    def files(self, seg):
        """[(name, [tokens, loops], location, mode)] in the order of opening"""
        out, cur = [], {}
        for e in seg:
            if e.kind == "fopen":
                r = (e.name, [], e.loc, e.mode)
                out.append(r)
                cur[e.file] = r
            elif e.kind == "fclose":
                cur.pop(e.file, None)
            elif e.kind == "out":
                if e.file in cur:
                    cur[e.file][1].append(e)
                else:
                    self.ob(e.loc, False, "a row is written to a file that is not open")
            elif e.kind == "loop":
                for k in self.writes(e.loop):
                    if k in cur:
                        cur[k][1].append(e)
                    else:
                        self.ob(e.loc, False, "a row is written to a file that is not open")
        return out

    def writes(self, loop):
        out = set()
        for _, head, backs, exits in loop.last:
            for b in [b for b in backs] + [x for x, _, why in exits if why != "cond"]:
                for e in b.seg[len(head.seg):]:
                    if e.kind == "out":
                        out.add(e.file)
                    elif e.kind == "loop" and e.loop is not loop:
                        out |= self.writes(e.loop)
        return out

    def leaves(self, ip, loop, want, chain=()):
        """[(innermost loop, its chain)] of a nest that does nothing but write rows in the innermost loop"""
        chain = chain + (loop,)
        inner, direct = {}, False
        for _, head, backs, exits in loop.last:
            for x, sig, why in exits:
                if why != "cond" and not x.facts.dead:
                    self.ob(ip.loc(loop.s), False, "a loop that writes rows is left early")
            for b in backs:
                if b.facts.dead:
                    continue
                es = [e for e in b.seg[len(head.seg):] if e.kind == "out" and e.file == want or e.kind == "loop" and want in self.writes(e.loop)]
                ls = [e for e in es if e.kind == "loop"]
                if ls:
                    self.ob(ip.loc(loop.s), len(ls) == 1 and len(es) == 1, "rows are written around the rows of the columns")
                    inner[id(ls[0].loop.s)] = ls[0].loop
                elif es:
                    direct = True
        if inner and not direct:
            return [x for l in inner.values() for x in self.leaves(ip, l, want, chain)]
        return [(loop, chain)]

    # ---------------- names
    def unused(self, ip, st, name, loc):
        """the number in the name is the first that is not used"""
        f = st.facts
        seg = st.seg
        ok = False
        for k, e in enumerate(seg):
            if e.kind != "loop":
                continue
            if not any(x.kind == "exists" for _, h, bs, ex in e.loop.last for b in bs for x in b.seg[len(h.seg):]):
                continue
            if e.why == "cond":
                return None          # every number is used
            tests = [x for x in seg[:k] if x.kind == "exists" and not x.res and same(f, x.name, name)]
            if not tests:
                continue
            rs = self.counter(e.loop)
            good = bool(rs)
            for r in rs:
                if not any(p[0] == "num" and f.norm(p[1] - r) == ZERO for p in name.parts if not isinstance(p, str)):
                    good = False
            for _, h, bs, ex in e.loop.last:
                for b in bs:
                    if b.facts.dead:
                        continue
                    t = [x for x in b.seg[len(h.seg):] if x.kind == "exists"]
                    if not t or not all(x.res for x in t) or not any(any(p[0] == "num" and b.facts.norm(p[1] - r) == ZERO for p in x.name.parts if not isinstance(p, str))
                                                                     and self.pattern(x.name) == self.pattern(name) for x in t if isinstance(x.name, Str) for r in rs):
                        good = False
            ok = ok or good
        return ok

    def pattern(self, n):
        return tuple(p if isinstance(p, str) else p[0] for p in n.parts)

    def counter(self, loop):
        """counters from zero in steps of one"""
        out = []
        for c in loop.numeric():
            if c[0] != "s":
                continue
            hv = loop.headval(c, None)
            if not isinstance(hv, Poly):
                continue
            z = loop.getq(loop.entry, c)
            if isinstance(z, Poly) and loop.entry.facts.norm(z) == ZERO and \
                    all(b.facts.norm(loop.getq(b, c) - hv) == ONE for _, _, bs, _ in loop.last for b in bs if not b.facts.dead):
                out.append(hv)
        return out

    def exit(self, ip, st, sig, fd):
        self.touch(st.seg)
        f = st.facts
        loc = ip.loc(fd)
        fs = self.files(st.seg)
        if not self.ob(loc, len(fs) == len(self.series), "the number of files written is not %d" % len(self.series), files=[x[0] for x in fs], path=path_of(st)):
            return
        first = None
        for (name, toks, l, mode), want in zip(fs, self.series):
            if not isinstance(name, Str):
                # only when all numbers are used
                self.ob(l, self.spent(st), "the name of a file is not known", name=name)
            elif first is None:
                u = self.unused(ip, st, name, l)
                self.ob(l, u is True or u is None, "the file opened is not the first of its numbers found unused", name=name.parts, path=path_of(st))
                if u:
                    first = name
            else:
                p = self.pattern(name)
                nums = [q for q in name.parts if not isinstance(q, str) and q[0] in ("num", "rep")]
                n1 = [q for q in first.parts if not isinstance(q, str) and q[0] in ("num", "rep")]
                self.ob(l, repr(nums) == repr(n1) and p != self.pattern(first), "the second file does not carry the number of the first", name=name.parts)
            if isinstance(name, Str) and not self.spent(st):
                lit = "".join(p for p in name.parts if isinstance(p, str))
                self.ob(l, want in lit and lit.endswith(".csv"), "the file is not of its series (%s)" % want, name=name.parts)
            getattr(self, "c_" + want)(ip, st, toks, l)

    def spent(self, st):
        """every number was found used"""
        return any(e.kind == "loop" and e.why == "cond" and
                   any(x.kind == "exists" for _, h, bs, ex in e.loop.last for b in bs for x in b.seg[len(h.seg):]) for e in st.seg)

    def head(self, ip, toks, loc):
        """the rows written outside loops, the first of which is the header"""
        outs = [e.val for e in toks if e.kind == "out"]
        k = next((i for i, e in enumerate(toks) if e.kind == "loop"), len(toks))
        rs, rest = rows(outs)
        self.ob(loc, rest == [], "the last row is not complete")
        pre, r0 = rows([e.val for e in toks[:k]])
        self.ob(loc, bool(pre) and pre[0] == HEAD and r0 == [], "the file does not start with the header", rows=rs[:2])
        return rs[1:]

    def num(self, cell):
        return cell[0] if len(cell) == 1 and isinstance(cell[0], Poly) else None

    def coord(self, f, v, ax, ix):
        if v is None:
            return False
        v = f.norm(v)
        a = v.as_atom()
        return a is not None and a.kind == "cell" and a.name.startswith("vect_%s@" % ax) and len(a.args) == 1 and holds(f, eq(f.norm(a.args[0]) - ix))

    def grid(self, ip, toks, loc, check, what):
        """one loop nest over all columns"""
        ls = [e for e in toks if e.kind == "loop"]
        if not self.ob(loc, len(ls) == 1, "%s are not written by one pass over the columns" % what):
            return
        want = [k for k in self.writes(ls[0].loop)]
        if not self.ob(loc, len(want) == 1, "rows of several files are mixed"):
            return
        n = ip.model.gsize()
        for loop, chain in self.leaves(ip, ls[0].loop, want[0]):
            got = {}
            f0 = loop.last[-1][1].facts
            for q in chain:
                for r in cover.ranges(q):
                    for ax in (0, 1):
                        if r.lo == ZERO and f0.norm(r.hi - f0.norm(n[ax])) == ZERO:
                            got.setdefault((ax, id(q)), (r.hv, q))
            # which counter is which axis: try both when the extents agree
            pairs = [(a, b) for (x, _), a in got.items() if x == 0 for (y, _), b in got.items() if y == 1 and a[1] is not b[1]]
            lo = ip.loc(loop.s)
            if not self.ob(lo, bool(pairs) and len(chain) == 2, "%s are not written for every column of the ground" % what):
                continue
            (i, _), (j, _) = pairs[0]
            for _, h, bs, _ in loop.last:
                for b in bs:
                    if b.facts.dead:
                        continue
                    rs, rest = rows([e.val for e in b.seg[len(h.seg):] if e.kind == "out" and e.file == want[0]])
                    if self.ob(lo, rest == [], "a row is not complete", rest=rest):
                        check(ip, b, rs, b.facts.norm(i), b.facts.norm(j), lo)

    def c_terrain(self, ip, st, toks, loc):
        self.ob(loc, self.head(ip, toks, loc) == [], "a row is written that is not a column of the ground")

        def check(ip, b, rs, i, j, lo):
            f = b.facts
            t, _, _ = colvals(ip, b, i, j)
            ok = len(rs) == 1 and len(rs[0]) == 3
            self.ob(lo, ok, "a column of the ground has not one row of three values", rows=rs)
            if ok:
                x, y, z = [self.num(c) for c in rs[0]]
                self.ob(lo, self.coord(f, x, "x", i) and self.coord(f, y, "y", j), "a row does not carry the position of its own column", row=rs[0])
                self.ob(lo, z is not None and f.norm(z - t) == ZERO, "a row does not carry the height of its own column", row=rs[0])
        self.grid(ip, toks, loc, check, "the rows of the ground")

    def c_body_soil(self, ip, st, toks, loc):
        f = st.facts
        extra = self.head(ip, toks, loc)
        n = simsym(st, "body_soil_pos_").size[0]
        if not any(e.kind == "loop" for e in toks):
            self.ob(loc, holds(f, eq(f.norm(n))), "soil on the walls is not written although parcels are recorded", path=path_of(st))
            self.ob(loc, len(extra) == 1 and len(extra[0]) == 3 and all(self.num(c) is not None for c in extra[0]),
                    "without soil on the walls there is not exactly one dummy row", rows=extra)
            return
        self.ob(loc, extra == [] or holds(f, eq(f.norm(n))), "a row is written that is not soil on a wall", rows=extra)
        self.ob(loc, bool(extra) or holds(f, gt(f.norm(n))), "without soil on the walls there is no dummy row", path=path_of(st))

        def check(ip, b, rs, i, j, lo):
            f = b.facts
            _, _, s = colvals(ip, b, i, j)
            exp = []
            for k in (0, 2):
                there = Or(ne(s[k]), ne(s[k + 1]))
                d = True if holds(f, there) else False if holds(f, Not(there)) else None
                self.ob(lo, d is not None, "whether soil on a wall is written does not depend on whether there is any", rows=rs, path=path_of(b))
                if d:
                    exp.append(s[k + 1])
            ok = len(rs) == len(exp) and all(len(r) == 3 for r in rs)
            self.ob(lo, ok, "the rows of a column are not the walls that carry soil", rows=rs, path=path_of(b))
            if ok:
                left = list(exp)
                for r in rs:
                    x, y, z = [self.num(c) for c in r]
                    self.ob(lo, self.coord(f, x, "x", i) and self.coord(f, y, "y", j), "a row does not carry the position of its own column", row=r)
                    hit = [q for q in left if z is not None and f.norm(z - q) == ZERO]
                    if self.ob(lo, bool(hit), "a row does not carry the top of the soil on its wall", row=r):
                        left.remove(hit[0])
        self.grid(ip, toks, loc, check, "the rows of the soil on the walls")

    def corner(self, ip, st, toks, loc):
        rs = self.head(ip, toks, loc)
        m, f = ip.model, st.facts
        self.ob(loc, not any(e.kind == "loop" for e in toks), "rows of the body are not enumerated")
        b = m.bodyval(NS + "Body")
        cs = corners(tuple(b.f["pos_"].items) + tuple(b.f["ori_"].items))
        seen = set()
        for r in rs:
            v = [self.num(c) for c in r]
            hit = [c for c in range(6) if len(v) == 3 and all(v[k] is not None and f.norm(v[k] - cs.items[c].items[k]) == ZERO for k in range(3))]
            if self.ob(loc, bool(hit), "a row is not one corner of the body at its pose", row=r):
                seen.add(hit[0])
        self.ob(loc, seen == set(range(6)), "not every corner of the body is written", corners=sorted(seen))

    c_bucket = c_blade = corner


class Both(Obl):
    """WriteOutputs: the soil and the body, once each"""

    def exit(self, ip, st, sig, fd):
        ws = [e for e in st.seg if e.kind == "writer"]
        loc = ip.loc(fd)
        s = [e for e in ws if e.fn == NS + "WriteSoil"]
        b = [e for e in ws if e.fn == NS + "WriteBody"]
        self.ob(loc, len(s) == 1 and len(b) == 1, "the outputs are not the soil and the body, once each", calls=[e.fn for e in ws])
        for e in s:
            p = e.args[0]
            self.ob(e.loc, isinstance(p, Ptr) and p.lv is not None and p.lv.root == ("sim",), "the soil written is not the one given")
        for e in b:
            p = e.args[0]
            self.ob(e.loc, isinstance(p, Ptr) and p.lv is not None and p.lv.root == ("body",), "the body written is not the one given")
        for e in st.seg:
            if e.kind in TOUCH and e.d.get("root") in (("sim",), ("body",)):
                self.ob(e.loc, False, "writing outputs changes the simulation", event=e.kind)


class TopModel(FModel):
    top = True


def file_jobs():
    from . import run
    return [run.interp_job("WriteSoil", [lambda: Files(["terrain", "body_soil"])], model=FModel),
            run.interp_job("WriteBody", [lambda: Files(["bucket"])], model=FModel, nth=0),
            run.interp_job("WriteBody", [lambda: Files(["blade"])], model=FModel, nth=1),
            run.interp_job("SoilDynamics::WriteOutputs", [Both], model=TopModel, nth=0),
            run.interp_job("SoilDynamics::WriteOutputs", [Both], model=TopModel, nth=1)]
