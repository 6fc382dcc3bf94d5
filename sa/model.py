"""The environment of the analysed functions: their parameters, the soil state
and what is assumed about it (each assumption is itself an invariant that a
property check verifies wherever the state is written)."""
from . import poly as P
from .poly import Poly, K, A, C, ZERO, ONE, ATOMS, TOL, CELLXY, atom, fresh, is_int, is_ht
from . import logic as L
from .logic import Bx, lit, ge, gt, eq, ne, Not, And, Or, T, F
from .facts import Facts, add_axioms
from .values import *
from .ir import ptype, strip_ref, Broken

NS = "soil_simulator::"
RECF = ("ind", "ii", "jj", "x_b", "y_b", "z_b", "h_soil")
CXY = A(CELLXY)
TOLP = A(TOL)


class Listener:
    wants_write = False
    def write(self, ip, st, ev): pass
    def cut(self, ip, st, seg, why, node): pass
    def iteration(self, ip, loop, head, back): pass
    def exit(self, ip, st, sig, fd): pass


class Model:
    track = False       # keep a hidden flag: some soil height was changed
    split_minmax = True
    marks = False       # leave a mark in the path where a loop was passed

    def __init__(self, listeners=(), relax=False, stale=False):
        self.ls = list(listeners)
        self.pending = []           # reports of the pass under way (dropped when it is repeated)
        self.depth = 0              # enclosing loops being analysed
        self.cheap = 0
        self.relax = relax          # wall/soil clearances hold (relaxation phases)
        self.stale = stale          # body soil at entry rests on the previous body
        self.outs = {}
        self.uninits, self.oobs, self.dangles, self.badfrees = {}, {}, {}, {}
        self.pure = {}
        self.assumed = set()

    # ------------------------------------------------------------ problems
    def where(self, ip, e):
        return ip.loc(e) if isinstance(e, dict) else ("?", 0)

    def report(self, fn, *a):
        if self.cheap:
            return
        if self.depth:
            self.pending.append((fn, a))
        else:
            fn(*a)

    def flush(self):
        ps, self.pending = self.pending, []
        for fn, a in ps:
            fn(*a)

    def uninit(self, ip, e):
        self.report(self.uninits.__setitem__, self.where(ip, e), True)

    def oob(self, ip, st, c, n):
        if not st.facts.dead:
            self.report(self.oobs.__setitem__, (ip.fstack[-1]["name"] if ip.fstack else "?", c, n), True)

    # accesses to containers of known extent
    bounds = False
    wholegrid = False       # accesses to the grid are checked as well
    foldlists = False       # elements of lists are not told apart
    nacc = 0

    def folded(self, items):
        if all(isinstance(x, VList) for x in items):
            n = min(len(x.items) for x in items)
            return VList([self.folded([x.items[j] for x in items]) for j in range(n)], items[0].et)
        if all(isinstance(x, Poly) for x in items):
            return A(fresh("elem", isint=all(is_int(x) for x in items)))
        return Opaque("elem")

    def at(self, ip, e):
        f = ip.fstack[-1] if ip.fstack else {}
        l = e.get("l") if isinstance(e, dict) else None
        return (f.get("file", "?"), l or getattr(ip, "line", 0))

    def outside(self, ip, st, q, n, what, e=None, dim=0):
        self.report(self.outs.__setitem__, self.at(ip, e) + (what, dim), "%s of %s" % (q, n))

    def inside(self, ip, st, sym, key, e):
        for d, (k, n) in enumerate(zip(key, sym.size)):
            if isinstance(k, Rng) or not self.wholegrid and (
                    sym.tag == "vect" or sym.tag == "terrain" or sym.tag in ("body", "bsoil") and d):
                continue
            self.nacc += 1
            k = st.facts.norm(k)
            if not self.within(st, k, n) and not st.facts.dead:
                self.outside(ip, st, k, n, sym.name, e, d)

    def within(self, st, k, n):
        f = st.facts
        n = f.norm(n)
        if k.cval() is not None and n.cval() is not None:
            return 0 <= k.cval() < n.cval()
        return f.prove(ge(k), 1) and f.prove(gt(n - k), 1)

    def dangling(self, ip, st, lv, e):
        self.report(self.dangles.__setitem__, self.where(ip, e), repr(lv))

    def badfree(self, ip, s, e):
        self.report(self.badfrees.__setitem__, self.where(ip, e), True)

    # ------------------------------------------------------------ entry values
    def simout(self):
        L3 = {f: ("float",) for f in RECF}
        for f in ("ind", "ii", "jj"):
            L3[f] = ("int",)
        n1, n2 = self.gsize()
        recs = Sym("recs", "recs", 1, ("fields", RECF, ("rec", NS + "body_soil"), L3), {f: "0" for f in RECF}, (),
                   (self.par("nrec", isint=True, nonneg=True),), A(atom("par", "RS0", ht=True)))
        f = {
            "equilibrium_": ne(A(atom("par", "eq0", isint=True, dom=(0, 1)))),
            "terrain_": Sym("terrain", "terrain", 2, ("float",), {"": "0"}, (), (n1, n2)),
            "body_": Sym("body", "body", 3, ("float",), {"": "0"}, (), (K(4), n1, n2)),
            "body_soil_": Sym("bsoil", "bsoil", 3, ("float",), {"": "0"}, (), (K(4), n1, n2)),
            "body_soil_pos_": recs,
        }
        for n in ("body_area_", "relax_area_", "impact_area_"):
            f[n] = VList([VList([A(atom("par", "%s%d%d" % (n, i, j), isint=True)) for j in (0, 1)]) for i in (0, 1)])
        if self.track:
            f["~moved"] = L.F
        return Struct(NS + "SimOut", f)

    def gsize(self):
        return (self.hl("x").scale(2) + ONE, self.hl("y").scale(2) + ONE)

    def hl(self, ax):
        a = atom("par", "half_length_%s_" % ax, isint=True)
        add_axioms(a, [gt(A(a))])
        L.POS.add(a.id)
        return A(a)

    def par(self, n, isint=False, ht=False, nonneg=False, pos=False):
        a = atom("par", n, isint=isint, ht=ht)
        if nonneg:
            add_axioms(a, [ge(A(a))])
        if pos:
            L.POS.add(a.id)
            add_axioms(a, [gt(A(a))])
        return A(a)

    def grid(self):
        f = {
            "half_length_x_": self.hl("x"), "half_length_y_": self.hl("y"), "half_length_z_": self.hl("z"),
            "cell_size_xy_": CXY, "cell_size_z_": C, "cell_area_": CXY * CXY, "cell_volume_": CXY * CXY * C,
        }
        for ax in "xyz":
            n = self.hl(ax).scale(2) + ONE
            f["vect_%s_" % ax] = Sym("vect_%s" % ax, "vect", 1, ("float",), {"": "0"}, (), (n,))
        return Struct(NS + "Grid", f)

    def vec(self, name, n):
        return VList([A(atom("par", "%s%d" % (name, i))) for i in range(n)], ("float",))

    def bodyval(self, rec):
        f = {"j_pos_init_": self.vec("j_init", 3), "b_pos_init_": self.vec("b_init", 3),
             "t_pos_init_": self.vec("t_init", 3), "width_": self.par("width", pos=True),
             "pos_": self.vec("bpos", 3), "ori_": self.vec("bori", 4)}
        return Struct(rec, f)

    def simparam(self):
        rep = atom("par", "repose_angle_")
        t = atom("app", "tan", (A(rep),))
        L.POS.add(t.id)
        L.POS.add(rep.id)
        return Struct(NS + "SimParam", {
            "repose_angle_": A(rep),
            "max_iterations_": self.par("max_iterations_", isint=True, nonneg=True),
            "cell_buffer_": self.par("cell_buffer_", isint=True, nonneg=True)})

    def bind(self, fd, st):
        """argument values for an entry function, by parameter type and position"""
        vs = []
        nvec = 0
        ptypes = [ptype(p["t"]) for p in fd["params"]]
        fl = [j for j, t in enumerate(ptypes) if t == ("float",)]
        for j, (p, t) in enumerate(zip(fd["params"], ptypes)):
            isref = t[0] == "ref"
            t0 = strip_ref(t)
            v = None
            if t0[0] == "ptr" and t0[1][0] == "rec":
                n = t0[1][1]
                if n == NS + "SimOut":
                    root = ("sim",)
                    st.store.setdefault(root, self.simout())
                elif n in (NS + "Body", NS + "Bucket", NS + "Blade"):
                    root = ("body",)
                    st.store.setdefault(root, self.bodyval(n))
                elif n == NS + "Grid":
                    root = ("grid",)
                    st.store.setdefault(root, self.grid())
                elif n == NS + "SimParam":
                    root = ("simparam",)
                    st.store.setdefault(root, self.simparam())
                else:
                    raise Broken("parameter %s of %s" % (p["t"], fd["name"]))
                v = Ptr(LV(root))
            elif t0[0] == "rec":
                n = t0[1]
                v = {NS + "Grid": self.grid, NS + "SimParam": self.simparam, NS + "SimOut": self.simout}.get(n, lambda: None)()
                if v is None and n in (NS + "Body", NS + "Bucket", NS + "Blade"):
                    v = self.bodyval(n)
                if v is None:
                    raise Broken("parameter %s of %s" % (p["t"], fd["name"]))
            elif t0 == ("vec", ("float",)):
                v = self.vecarg(nvec, p, fd)
                nvec += 1
            elif t0 == ("float",):
                if j == fl[-1] and self.lasttol(fd, p):
                    v = TOLP
                else:
                    v = A(atom("par", "arg_" + p["n"]))
            elif t0 == ("int",):
                v = A(atom("par", "arg_" + p["n"], isint=True))
            elif t0 == ("bool",):
                v = ne(A(atom("par", "arg_" + p["n"], isint=True, dom=(0, 1))))
            else:
                v = self.otherarg(p, t0, fd)
                if v is None:
                    raise Broken("parameter %s of %s" % (p["t"], fd["name"]))
            if isref:
                root = ("arg", p["n"])
                st.store[root] = v
                v = RefV(LV(root))
            vs.append(v)
        return vs

    def vecarg(self, n, p, fd):
        return self.vec("pos" if n == 0 else "ori", 3 if n == 0 else 4)

    def lasttol(self, fd, p):
        return True

    def otherarg(self, p, t, fd):
        return None

    # ------------------------------------------------------------ cells
    def base(self, ip, st, sym, key, field, e):
        t = sym.tag
        if t == "terrain":
            return [(st, A(ip.cell(sym, key, field, ("float",), ht=True)))]
        if t in ("body", "bsoil"):
            if key[0].cval() is None:
                out = []
                cur = st
                for n in range(4):
                    if cur is None:
                        break
                    tt, cur = ip.branch(cur, eq(key[0] - K(n)), e)
                    if tt is not None:
                        out.extend(self.base(ip, tt, sym, (K(n),) + key[1:], field, e))
                return out
            if not 0 <= key[0].cval() <= 3:
                self.oob(ip, st, key[0].cval(), 4)
                return [(st, A(fresh("oob")))]
            a = ip.cell(sym, key, field, ("float",), ht=True)
            self.column(ip, st, key[1], key[2], sym, (key[0].cval() // 2) * 2)
            return [(st, st.facts.norm(A(a)))]
        if t == "recs":
            return self.rec(ip, st, sym, key, field, e)
        lt = ip.leaf_t(sym.leaf, field) if sym.leaf[0] != "fields" else sym.leaf[3][field]
        if isinstance(lt, tuple) and lt[0] == "bool":
            return [(st, ne(A(ip.cell(sym, key, field, ("bool",)))))]
        return [(st, A(ip.cell(sym, key, field, lt, ht=(sym.name == "vect_z"))))]

    def cur(self, st, f):
        sim = st.store.get(("sim",))
        return sim.f[f] if sim is not None else None

    def column(self, ip, st, i, j, sym, slot):
        """what is known about the column (i, j): both walls and the soil on them"""
        body, bs = self.cur(st, "body_"), self.cur(st, "body_soil_")
        if sym.name == "body":
            body = sym
        if sym.name == "bsoil":
            bs = sym
        seen = st.x.get("col", frozenset())
        kb = ("b", body.ep[""], i, j)
        if kb not in seen:
            seen = seen | {kb}
            st.x["col"] = seen
            b = [A(ip.cell(body, (K(n), i, j), "", ("float",), ht=True)) for n in range(4)]
            ab = [And(eq(b[n]), eq(b[n + 1])) for n in (0, 2)]
            for n, k in ((0, 0), (2, 1)):
                st.facts.assume(Or(ab[k], gt(b[n + 1] - b[n])))
            st.facts.assume(Or(ab[0], ab[1], gt(b[2] - b[1]), gt(b[0] - b[3])))
            self.assumed.add("walls: each present wall has its bottom below its top; two walls of a column do not overlap")
        if bs is None:
            return
        stale = self.stale and bs.ep[""] == "0"
        ks = ("s", bs.ep[""], i, j, slot)
        if ks not in seen and not stale:
            st.x["col"] = seen | {ks}
            b = [A(ip.cell(body, (K(slot + n), i, j), "", ("float",), ht=True)) for n in range(2)]
            s = [A(ip.cell(bs, (K(slot + n), i, j), "", ("float",), ht=True)) for n in range(2)]
            st.facts.assume(Or(And(eq(s[0]), eq(s[1])),
                               And(eq(s[0] - b[1]), Or(ne(b[0]), ne(b[1])))))
            st.facts.assume(ge(s[1] - s[0]))
            self.assumed.add("body soil: bottom <= top; a non-empty column rests on its own wall")
            if self.relax:
                o = 2 - slot
                ob = [A(ip.cell(body, (K(o + n), i, j), "", ("float",), ht=True)) for n in range(2)]
                st.facts.assume(Or(And(eq(s[0]), eq(s[1])), And(eq(ob[0]), eq(ob[1])), gt(b[0] - ob[0]),
                                   ge(ob[0] - s[1])))
        if self.relax:
            te = self.cur(st, "terrain_")
            kt = ("t", te.ep[""], i, j, slot)
            if kt not in st.x["col"]:
                st.x["col"] = st.x["col"] | {kt}
                b = [A(ip.cell(body, (K(slot + n), i, j), "", ("float",), ht=True)) for n in range(2)]
                t = A(ip.cell(te, (i, j), "", ("float",), ht=True))
                st.facts.assume(Or(And(eq(b[0]), eq(b[1])), ge(b[0] - t)))
                self.assumed.add("relaxation: terrain does not cross a wall; soil on a wall stays below the wall above it")

    def rec(self, ip, st, sym, key, field, e):
        if field == "ind":
            a = ip.cell(sym, key, "ind", ("int",), dom=(0, 2))
            out = []
            t, f = ip.branch(st, eq(A(a)), e)
            if t is not None:
                out.append((t, t.facts.norm(A(a))))
            if f is not None:
                f.facts.assume(eq(A(a) - K(2)))
                if not f.facts.dead:
                    out.append((f, f.facts.norm(A(a))))
            return out
        if field in ("ii", "jj"):
            return [(st, A(ip.cell(sym, key, field, ("int",))))]
        if field == "h_soil":
            a = ip.cell(sym, key, field, ("float",), ht=True)
            out = [(st, st.facts.norm(A(a)))]
            seen = st.x.get("rec", frozenset())
            k = (sym.name, sym.ep["h_soil"], key)
            if k in seen:
                return out
            st.x["rec"] = seen | {k}
            st.facts.assume(ge(A(a)))
            if sym.name == "recs" and not (self.stale and sym.ep["h_soil"] == "0"):
                out = []
                for s, ind in self.rec(ip, st, sym, key, "ind", e):
                    c = s.facts.norm(ind).cval()
                    ii = s.facts.norm(A(ip.cell(sym, key, "ii", ("int",))))
                    jj = s.facts.norm(A(ip.cell(sym, key, "jj", ("int",))))
                    bs = self.cur(s, "body_soil_")
                    self.column(ip, s, ii, jj, bs, c)
                    x = [A(ip.cell(bs, (K(c + n), ii, jj), "", ("float",), ht=True)) for n in range(2)]
                    s.facts.assume(ge(x[1] - x[0] - A(a)))
                    self.assumed.add("records: the recorded amounts of a column add up to its height")
                    out.append((s, s.facts.norm(A(a))))
            return out
        return [(st, A(ip.cell(sym, key, field, ("float",))))]

    def star(self, ip, s, sym, field, key, n):
        return A(fresh("star"))

    # ------------------------------------------------------------ writes
    def on_write(self, ip, s, l, i, key, field, old, new, e):
        sym = ip.getat(s, l, i)
        t = sym.tag
        if t == "terrain":
            s.ghost["GT"] = s.facts.norm(s.ghost["GT"] + new - old)
        elif t == "bsoil":
            c = key[0].cval()
            if c is None:
                s.ghost["GS"] = A(fresh("layer"))
                return
            d = (new - old).scale(1 if c % 2 else -1)
            s.ghost["GS"] = s.facts.norm(s.ghost["GS"] + d)
        elif t == "recs" and field == "h_soil" and sym.sum is not None:
            ip.putat(s, l, i, sym.rep(sum=s.facts.norm(sym.sum + new - old)))
        if self.track and t in ("terrain", "bsoil") and s.facts.norm(new - old) != ZERO:
            s.store[("sim",)] = s.store[("sim",)].set("~moved", L.T)
        if t != "gen":
            ip.emit(s, "w", e, tag=t, name=sym.name, key=key, field=field, old=old, new=new, root=l.root)
            self.wrote(ip, s)

    def wrote(self, ip, s):
        if self.cheap:
            return
        for x in self.ls:
            if x.wants_write:
                self.report(x.write, ip, s.copy() if self.depth else s, s.seg[-1])

    def on_rangewrite(self, ip, s, l, i, key, field, v, e):
        sym = ip.getat(s, l, i)
        if sym.tag in ("terrain", "bsoil", "body"):
            ip.emit(s, "rw", e, tag=sym.tag, key=key, new=v, root=l.root)
            for g, t in (("GT", "terrain"), ("GS", "bsoil")):
                if sym.tag == t:
                    s.ghost[g] = A(fresh("range"))

    def on_assign(self, ip, s, l, old, new, e):
        if isinstance(old, Sym) and old.tag in ("terrain", "bsoil", "body", "recs") and old.name in ("terrain", "bsoil", "body", "recs"):
            ip.emit(s, "assign", e, tag=old.tag, old=old, new=new, root=l.root)
            if old.tag == "terrain":
                s.ghost["GT"] = A(fresh("assign"))
            elif old.tag == "bsoil":
                s.ghost["GS"] = A(fresh("assign"))

    def on_scalar(self, ip, s, l, old, new, e):
        if l.root == ("sim",) or l.root == ("body",):
            ip.emit(s, "set", e, lv=l, old=old, new=new)

    def on_push(self, ip, s, l, v, val, e):
        isrec = isinstance(v, Sym) and v.tag == "recs" or isinstance(val, Struct) and val.name == NS + "body_soil"
        if isrec:
            f = val.f if isinstance(val, Struct) else {}
            ip.emit(s, "push", e, lv=l, name=v.name if isinstance(v, Sym) else "local", val=f)
            self.wrote(ip, s)
        else:
            ip.emit(s, "vpush", e, lv=l, val=val)

    def on_clear(self, ip, s, l, v, e):
        if isinstance(v, Sym) and v.name in ("recs", "bsoil", "terrain", "body"):
            ip.emit(s, "clear", e, name=v.name, old=v)

    def on_pop(self, ip, s, l, v, e):
        ip.emit(s, "pop", e, lv=l)

    def on_append(self, ip, s, l, v, src, full, e):
        ip.emit(s, "append", e, lv=l, old=v, src=src, full=full)

    def sumfield(self, sym):
        return "h_soil"

    def tagof(self, shape):
        if shape[0] == "fields" and shape[2][0] == "rec" and shape[2][1] == NS + "body_soil":
            return "recs"
        return "gen"

    def index(self, ip, st, a, n, e):
        if self.bounds:
            self.nacc += 1
            a = st.facts.norm(a)
            if not self.within(st, a, n) and not st.facts.dead:
                self.outside(ip, st, a, n, "swapped", e)

    def subscript(self, ip, st, l, p, e):
        pass

    # ------------------------------------------------------------ misc
    def gvar(self, ip, e):
        n = e["n"]
        if n.endswith("rng"):
            return Opaque("rng", n)
        for g in ip.prog.globals:
            if g["name"] == n and g.get("init") is not None and g.get("const"):
                st = St(Facts())
                st.x["frame"] = 0
                r = ip.ev(g["init"], st)
                return r[0][1]
        t = ptype(e.get("t") or "float")
        if t[0] in ("int", "float"):
            return A(atom("gv", n, isint=t[0] == "int"))
        if t[0] == "bool":
            return ne(A(atom("gv", n, isint=True, dom=(0, 1))))
        return Opaque("gv", n)

    def static(self, ip, d, v):
        if d.get("const"):
            return v
        t = ptype(d["t"])
        if t[0] in ("int", "float"):
            return A(atom("gv", "static:%s" % d["n"], isint=t[0] == "int"))
        if t[0] == "bool":
            return ne(A(atom("gv", "static:%s" % d["n"], isint=True, dom=(0, 1))))
        if isinstance(v, (VList, Struct)):
            return v
        return Opaque("static", d["n"])

    def opaque_member(self, ip, s, v, path, e):
        t = ptype(e["t"]) if isinstance(e, dict) and e.get("t") else ("float",)
        t = strip_ref(t)
        nm = repr(v) + "".join(str(p[1]) for p in path)
        if t[0] == "int":
            return A(atom("opq", nm, (), True))
        if t[0] == "float":
            return A(atom("opq", nm, ()))
        if t[0] == "bool":
            return ne(A(atom("opq", nm, (), True, dom=(0, 1))))
        return Opaque("part", v, path)

    def summary(self, ip, st, fd, vs, e, this):
        h = self.pure.get(fd["name"])
        if h is not None:
            return h(ip, st, fd, vs, e)
        return None

    def ctor(self, ip, e, t, args, st):
        return None

    def libcall(self, ip, e, st, n, args):
        return None

    def method(self, ip, e, s, n, l, bt, args):
        return None

    def callobj(self, ip, e, s, f, args):
        return None

    def negate(self, ip, e, a, st):
        return None

    def stream(self, ip, e, op, args, st):
        out = []
        for s, v in ip.ev(args[0], st):
            res = [s]
            for a in args[1:]:
                res = [s3 for s2 in res for s3, _ in ip.ev(a, s2)]
            out.extend((s2, v) for s2 in res)
        return out

    def small_loop(self, ip, s, st, cond, inc, body):
        """loops over a table of constant length are unrolled with forks only
        when they are tiny and write nothing"""
        return False

    # ------------------------------------------------------------ loops
    def is_soil(self, sym, f):
        return sym.name in ("terrain", "bsoil") or (sym.name == "recs" and f == "h_soil")

    def group(self, entry, mods):
        out = set()
        sim = entry.store.get(("sim",))
        if sim is None:
            return out
        pb, pr = (("f", "body_soil_"),), (("f", "body_soil_pos_"),)
        hit = any(d[0] == "a" and d[1] == ("sim",) and (d[2] == pb or d[2] == pr and d[3] == "h_soil") for d in mods)
        if hit:
            if isinstance(sim.f["body_soil_"], Sym):
                out.add(("a", ("sim",), pb, ""))
            if isinstance(sim.f["body_soil_pos_"], Sym):
                out.add(("a", ("sim",), pr, "h_soil"))
        return out

    def rebase(self, ip, st, epid):
        pass

    def cut(self, ip, st, node, why):
        if why == "enter":
            st.x["ldepth"] = len(ip.loopobjs) - 1
        if not self.cheap:
            for x in self.ls:
                self.report(x.cut, ip, st.copy() if self.depth else st, st.seg, why, node)
        st.seg = ()

    def cut_exit(self, ip, st, sig, fd):
        for x in self.ls:
            x.cut(ip, st, st.seg, "exit", fd)
            x.exit(ip, st, sig, fd)

    def iteration(self, ip, loop, sg, head, back):
        for x in self.ls:
            self.report(x.iteration, ip, loop, head, back)

    def loss(self, ip, head, b):
        """material that a path removes and reports"""
        if "GT" not in b.ghost or not any(ev.kind == "log" for ev in b.seg):
            return
        d = b.facts.norm(b.ghost["GT"] + b.ghost["GS"] - head.ghost["GT"] - head.ghost["GS"])
        if d != ZERO and b.facts.prove(gt(-d), 1):
            b.ghost["GT"] = b.facts.norm(b.ghost["GT"] - d)
            b.seg = b.seg + (Ev("loss", b.seg[-1].loc, amount=-d),)

    def foreach_rule(self, ip, loop, exits, backs):
        """a loop that visits every record and clears the record's column
        clears the whole body-soil array"""
        ent = loop.entry
        sim = ent.store.get(("sim",))
        if sim is None or not backs or any(why != "cond" for _, _, why, _ in exits):
            return None
        d = ("a", ("sim",), (("f", "body_soil_"),), "")
        if d not in loop.mods:
            return None
        counters = [c for c in loop.numeric() if c[0] in ("s", "t") and loop.getq(ent, c) == ZERO]
        for c in counters:
            hv = loop.headval(c, None)
            if not all(b.facts.norm(loop.getq(b, c) - hv) == ONE for _, b in backs):
                continue
            for r, v in ent.store.items():
                from .loops import findsyms
                for p, sym in findsyms(v, ()):
                    if sym.tag != "recs" or sym.log or sym.name != "recs" or sym.ep["ind"] != "0":
                        continue
                    if any(m[1] == r and m[2] == p for m in loop.mods if m[0] != "a" or m[3] != "h_soil"):
                        continue
                    if not all(x.facts.decide(eq(loop.getq(h, c) - sym.size[0])) is True for x, _, _, h in exits):
                        continue
                    ok = True
                    for h, b in backs:
                        ind = b.facts.norm(A(ip.cell(sym, (hv,), "ind", ("int",), dom=(0, 2)))).cval()
                        ii = b.facts.norm(A(ip.cell(sym, (hv,), "ii", ("int",))))
                        jj = b.facts.norm(A(ip.cell(sym, (hv,), "jj", ("int",))))
                        w = {}
                        for k, f, val in b.store[("sim",)].f["body_soil_"].log:
                            w[k] = val
                        if ind is None or w != {(K(ind), ii, jj): ZERO, (K(ind + 1), ii, jj): ZERO}:
                            ok = False
                    if ok:
                        eid = "R%d" % loop.epid
                        sm = sym.sum

                        def fixup(st, why, eid=eid, sm=sm):
                            s = st.store[("sim",)]
                            st.store[("sim",)] = s.set("body_soil_", s.f["body_soil_"].rep(ep={"": eid}, log=(), fill={"": ZERO}))
                            st.ghost["GS"] = st.facts.norm(ent.ghost["GS"] - sm)
                            st.x["reset"] = True
                        self.assumed.add("entry of UpdateBodySoil: every column of soil on the body is recorded (C02)")
                        return fixup
        return None


# ------------------------------------------------------------ opaque pure functions
def pure_vec(n):
    def h(ip, st, fd, vs, e):
        args = []
        for v in vs:
            if isinstance(v, RefV):
                r = ip.load(st, v.lv, e)
                v = r[0][1] if len(r) == 1 else Opaque("?")
            flat(ip, st, v, args)
        args = tuple(args)
        nm = fd["name"].split("::")[-1]
        return [(st, VList([A(atom("app", "%s.%d" % (nm, i), args)) for i in range(n)], ("float",)))]
    return h


def flat(ip, st, v, out):
    if isinstance(v, Poly):
        out.append(st.facts.norm(v))
    elif isinstance(v, VList):
        for x in v.items:
            flat(ip, st, x, out)
    elif isinstance(v, Struct):
        if v.name == NS + "Grid":
            return
        for x in v.f.values():
            flat(ip, st, x, out)
    elif isinstance(v, Ptr) and v.lv is not None:
        x = st.store.get(v.lv.root)
        if isinstance(x, Struct) and v.lv.root == ("body",):
            flat(ip, st, x, out)


PURE = {NS + "CalcBodyFramePos": pure_vec(3), NS + "CalcRotationQuaternion": pure_vec(3),
        NS + "MultiplyQuaternion": pure_vec(4), NS + "CalcNormal": pure_vec(3), NS + "AngleToQuat": pure_vec(4)}


def start_state(model):
    st = St(Facts())
    st.ghost = {"GT": ZERO, "GS": ZERO}
    st.x["frame"] = 0
    return st


def analyse(prog, fname, model, nth=0, sel=None, this=None):
    """run the abstract interpreter over one entry function"""
    from .interp import Interp
    c = [f for f in prog.byname.get(fname, []) if f.get("body") is not None]
    if sel:
        c = [f for f in c if sel(f)]
    if not c:
        raise Broken("function %s not found" % fname)
    fd = c[nth]
    ip = Interp(prog, model)
    st = start_state(model)
    vs = model.bind(fd, st)
    if fd.get("method") and this is None:
        cls = fd.get("cls") or NS + "SoilDynamics"
        st.store[("this",)] = ip.uninit(("rec", cls)) if fd.get("ctor") else Struct(cls, {})
        this = LV(("this",))
    ip.fstack.append(fd)
    try:
        res = ip.inline(fd, vs, st, this, {"l": fd["line"]})
    finally:
        ip.fstack.pop()
    ip.fd = fd
    out = []
    for s, v in res:
        if s.facts.dead:
            continue
        sig = ("throw",) if s.x.get("throw") else ("ret", v)
        ip.stats["paths"] += 1
        model.cut_exit(ip, s, sig, fd)
        out.append((s, sig))
    return ip, fd, out
