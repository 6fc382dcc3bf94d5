"""C14: X, Y and Z as types.

Every value of the program gets an axis by inference: the members of the
library's classes fix the axes of positions, cell indices, extents, heights
and cell sizes; sums, comparisons, assignments, subscripts and conversions
require equal axes.  Functions are instantiated per call."""
from . import run, effects
from .ir import ptype, strip_ref
from .model import NS

ALL = frozenset("xyz")
X, Y, Z = frozenset("x"), frozenset("y"), frozenset("z")
H = frozenset("xy")


class Ty:
    __slots__ = ("up", "ax", "size", "comps", "elem", "ix", "het", "homo", "why", "rec")

    def __init__(self, ax=ALL, why=None, size=None):
        self.up, self.ax, self.size, self.why = None, ax, size, why
        self.comps, self.elem, self.ix, self.het, self.homo, self.rec = None, None, None, False, False, None


def find(t):
    while t.up is not None:
        if t.up.up is not None:
            t.up = t.up.up
        t = t.up
    return t


def scalar(ax, why):
    return Ty(ax, why)


def vec(elem, ix=None, homo=True):
    t = Ty()
    t.elem, t.ix, t.homo = elem, ix or Ty(), homo
    return t


def fixed(*axs, why=None):
    t = Ty()
    t.het = True
    t.comps = {k: (scalar(a, why) if isinstance(a, frozenset) else a) for k, a in enumerate(axs)}
    return t


def layered(why):
    return vec(scalar(Z, why), scalar(Y, "second index of " + why))


SIZES = {"cell_size_z_": Z, "cell_size_xy_": H}
FIELDS = {
    "Grid": {"half_length_x_": X, "half_length_y_": Y, "half_length_z_": Z},
    "body_soil": {"ii": X, "jj": Y, "x_b": X, "y_b": Y, "z_b": Z, "h_soil": Z},
}


# a rotation keeps the order of the coordinates of the position it is given
FRAMES = {"CalcRotationQuaternion": 1}


class Infer:
    def __init__(self, prog, r):
        self.prog, self.r = prog, r
        self.later = []
        self.fields = {}
        self.stack = []
        self.file = "?"
        self.seen = set()
        self.fluid, self.preset = set(), {}
        for sig, fd in prog.functions.items():
            self.key = sig
            for i in fd.get("inits") or ():
                if isinstance(i, dict) and (i.get("f") or i.get("n")) in SIZES and isinstance(i.get("e"), dict):
                    self.given(i.get("f") or i.get("n"), i["e"])
            effects.walk(fd.get("body"), self.scaled)

    def scaled(self, e):
        # a scaled variable changes its dimension on the way
        if e.get("k") == "asg" and e["op"] in ("*=", "/=") and not self.lit(e["b"]) and e["a"].get("k") == "var":
            self.fluid.add((self.key, e["a"]["id"]))
        if e.get("k") == "asg" and e["op"] == "=" and e["a"].get("k") == "var":
            b = e["b"]
            while b.get("k") in ("cast", "copy"):
                b = b["e"]
            if b.get("k") == "bin" and b["op"] in "*/" and any(x.get("k") == "var" and x["id"] == e["a"]["id"] for x in (b["a"], b["b"])):
                self.fluid.add((self.key, e["a"]["id"]))

        if e.get("k") == "asg" and e["op"] == "=" and e["a"].get("k") == "mem" and e["a"]["n"] in SIZES:
            self.given(e["a"]["n"], e["b"])

    def given(self, n, e):
        while e.get("k") in ("cast", "copy"):
            e = e["e"]
        if e.get("k") == "var":
            self.preset[self.key, e["id"]] = SIZES[n]

    # ------------------------------------------------------------ types
    def bad(self, line, msg):
        k = (self.file, line, msg)
        if k not in self.seen:
            self.seen.add(k)
            self.r.viol.append((self.file, line, msg, {"through": " > ".join(self.stack)}))

    def unify(self, a, b, line, what):
        a, b = find(a), find(b)
        if a is b:
            return a
        self.r.obligations += 1
        if a.size is not None or b.size is not None:
            if a.size is not None and b.size is not None:
                return a
            s, o = (a, b) if a.size is not None else (b, a)
            self.later.append((o, s.size, self.file, line, what, tuple(self.stack)))
            return o
        ax = a.ax & b.ax
        if not ax:
            self.bad(line, "%s mixes axes: %s with %s" % (what, name(a), name(b)))
            return a
        else:
            why = a.why if a.ax == ax and a.why else b.why if b.ax == ax and b.why else a.why or b.why
        b.up = a
        a.ax, a.why = ax, why
        a.het, a.homo = a.het or b.het, a.homo or b.homo
        a.rec = a.rec or b.rec
        ca, cb = a.comps, b.comps
        ea, eb, ia, ib = a.elem, b.elem, a.ix, b.ix
        if cb:
            if a.comps is None:
                a.comps = {}
            for k, t in cb.items():
                if k in a.comps:
                    self.unify(a.comps[k], t, line, what)
                else:
                    a.comps[k] = t
        a = find(a)
        if eb is not None:
            if a.elem is None:
                a.elem = eb
            else:
                self.unify(a.elem, eb, line, what)
        a = find(a)
        if ib is not None:
            if a.ix is None:
                a.ix = ib
            else:
                self.unify(a.ix, ib, line, what)
        return find(a)

    def finish(self):
        for t, size, f, line, what, stack in self.later:
            t = find(t)
            if t.size is not None:
                continue
            self.r.obligations += 1
            if t.ax != ALL and not (t.ax & size):
                self.file, self.stack = f, list(stack)
                self.bad(line, "%s uses the cell size of another axis: %s with a cell size of %s" % (what, name(t), "/".join(sorted(size)).upper()))
        self.later = []

    def field(self, cls, n, t):
        c = (cls or "").replace(NS, "")
        if c == "Grid":
            if n == "cell_size_z_":
                return Ty(size=Z)
            if n == "cell_size_xy_":
                return Ty(size=H)
            if n in ("cell_area_", "cell_volume_"):
                return Ty()
        key = (c, n)
        if key in self.fields:
            return self.fields[key]
        if n in FIELDS.get(c, {}):
            v = scalar(FIELDS[c][n], "%s.%s" % (c, n))
        elif c == "Grid" and n.startswith("vect_"):
            a = frozenset(n[5])
            v = vec(scalar(a, n), scalar(a, "index of " + n))
        elif c == "SimOut" and n == "terrain_":
            v = vec(layered("terrain_"), scalar(X, "first index of terrain_"))
        elif c == "SimOut" and n in ("body_", "body_soil_"):
            v = vec(vec(layered(n), scalar(X, "second index of " + n)))
        elif c == "SimOut" and n.endswith("_area_"):
            v = fixed(vec(scalar(X, n + "[0]")), vec(scalar(Y, n + "[1]")))
        elif n in ("pos_", "j_pos_init_", "b_pos_init_", "t_pos_init_") and c in ("Body", "Bucket", "Blade"):
            v = self.fields.get(("Body", n))
            if v is None:
                v = self.fields[("Body", n)] = fixed(X, Y, Z, why=n)
        elif c in ("SimParam",) or n in ("width_", "ori_", "ind", "equilibrium_"):
            return Ty()
        elif c in ("Grid", "SimOut", "body_soil", "Body", "Bucket", "Blade"):
            v = Ty()
        else:
            return None                      # a helper's own record: typed per object
        self.fields[key] = v
        return v

    # ------------------------------------------------------------ expressions
    def element(self, b, e, i, line):
        b = find(b)
        it = self.ex(i) if isinstance(i, dict) else Ty()
        st = i
        while isinstance(st, dict) and st.get("k") in ("cast", "copy"):
            st = st["e"]
        const = st["v"] if isinstance(st, dict) and st.get("k") == "int" else None
        et = strip_ref(ptype(e.get("t") or "float"))
        scal = et[0] in ("int", "float", "bool")
        if b.ix is None:
            b.ix = Ty()
        if const is not None and (b.het or (scal and not b.homo)):
            if b.comps is None:
                b.comps = {}
            if const not in b.comps:
                b.comps[const] = Ty()
            return b.comps[const]
        if b.het:
            return Ty()
        if const is None:
            self.unify(b.ix, it, line, "a subscript")
            b = find(b)
        if b.elem is None:
            b.elem = Ty()
        return b.elem

    def lit(self, e):
        return isinstance(e, dict) and (e.get("k") in ("int", "flt") or e.get("k") in ("cast", "un") and self.lit(e.get("e")))

    def ex(self, e):
        if not isinstance(e, dict):
            return Ty()
        return find(getattr(self, "x_" + e["k"], self.other)(e))

    def other(self, e):
        for k, v in e.items():
            for x in v if isinstance(v, list) else (v,):
                if isinstance(x, dict) and "k" in x and x["k"] not in ("lambda",):
                    self.ex(x) if hasattr(self, "x_" + x["k"]) else None
        return Ty()

    def x_int(self, e):
        return Ty()
    x_flt = x_bool = x_char = x_str = x_null = x_this = x_gvar = x_fn = x_srcloc = x_zero = x_int

    def x_var(self, e):
        env = self.env
        k = (self.key, e["id"])
        if k in self.fluid:
            return Ty()
        if k in self.preset:
            return Ty(size=self.preset[k])
        while env is not None:
            if e["id"] in env:
                return env[e["id"]]
            env = env.get("up")
        t = self.env[e["id"]] = Ty()
        return t

    def x_copy(self, e):
        return self.ex(e["e"])

    def x_cast(self, e):
        return self.ex(e["e"])

    def x_mem(self, e):
        b = self.ex(e["b"]) if e["b"].get("k") not in ("this",) else Ty()
        if e.get("cls"):
            t = self.field(e["cls"], e["n"], e.get("t"))
            return self.comp(b, e["n"]) if t is None else t
        if e["n"] in ("first", "second"):
            return self.comp(b, 0 if e["n"] == "first" else 1)
        return Ty()

    def comp(self, b, k):
        b = find(b)
        if b.comps is None:
            b.comps = {}
        if k not in b.comps:
            b.comps[k] = Ty()
        return b.comps[k]

    def x_idx(self, e):
        return self.element(self.ex(e["b"]), e, e["i"], e["l"])

    def x_un(self, e):
        t = self.ex(e["e"])
        if e["op"] == "*":
            return t
        return Ty() if e["op"] == "!" else t

    def x_cond(self, e):
        self.ex(e["c"])
        return self.unify(self.ex(e["a"]), self.ex(e["b"]), e["l"], "a choice")

    def product(self, a, b, ea, eb, line, div):
        if a.size is not None and b.size is not None:
            return Ty()
        if b.size is not None and (div or a.size is None) or a.size is not None and not div:
            s, o, eo = (b, a, ea) if b.size is not None else (a, b, eb)
            if self.lit(eo):
                return Ty(size=s.size) if not div else Ty()
            isint = strip_ref(ptype(eo.get("t") or "float"))[0] == "int"
            if div or o.ax != ALL or isint:
                self.later.append((o, s.size, self.file, line, "a conversion", tuple(self.stack)))
                return o
            return Ty()
        if a.size is not None:
            return Ty(size=a.size) if self.lit(eb) else Ty()
        if self.lit(eb):
            return a
        if self.lit(ea) and not div:
            return b
        return Ty()

    def x_bin(self, e):
        a, b = self.ex(e["a"]), self.ex(e["b"])
        op = e["op"]
        if op in ("*", "/"):
            return self.product(a, b, e["a"], e["b"], e["l"], op == "/")
        if op in ("+", "-", "<", ">", "<=", ">=", "==", "!="):
            if self.lit(e["a"]) or self.lit(e["b"]):
                t = b if self.lit(e["a"]) else a
            else:
                t = self.unify(a, b, e["l"], "a sum or difference" if op in "+-" else "a comparison")
            return t if op in "+-" else Ty()
        if op == ",":
            return b
        if op == "%":
            return a
        return Ty()

    def x_asg(self, e):
        a, b = self.ex(e["a"]), self.ex(e["b"])
        op = e["op"]
        if op in ("=", "+=", "-="):
            if not self.lit(e["b"]):
                if b.size is not None and find(a).ax == ALL and op == "=":
                    find(a).size = b.size
                    return a
                v = e["a"]
                if op == "=" and v.get("k") == "var" and a.size is None and b.size is None and not (a.ax & b.ax):
                    self.env[v["id"]] = t = Ty()      # the variable is used for something else from here on
                    return self.unify(t, b, e["l"], "an assignment")
                return self.unify(a, b, e["l"], "an assignment")
            if op == "=" and e["a"].get("k") == "var" and a.elem is None and a.comps is None:
                self.env[e["a"]["id"]] = a = Ty()
            return a
        if op in ("*=", "/="):
            self.product(a, b, e["a"], e["b"], e["l"], op == "/=")
        return a

    def x_init(self, e):
        t = Ty()
        if e.get("fields"):
            cls = e["t"]
            for f, x in zip(e["fields"], e["e"]):
                v = self.ex(x)
                if not self.lit(x):
                    m = self.field(cls, f, None)
                    self.unify(self.comp(t, f) if m is None else m, v, e["l"], "a member")
            return t
        return self.listed(e["e"], e["l"])

    def listed(self, xs, line):
        t = Ty()
        rows = any(self.rowlike(x) for x in xs)
        if rows:
            t.elem = Ty()
            for x in xs:
                t.elem = self.unify(t.elem, self.ex(x), line, "a table")
        else:
            t.comps = {}
            for k, x in enumerate(xs):
                v = self.ex(x)
                t.comps[k] = v if not self.lit(x) else Ty()
        return t

    def rowlike(self, x):
        t = x.get("t")
        if x.get("k") == "init":
            return True
        return bool(t) and strip_ref(ptype(t))[0] in ("vec", "arr", "il")

    def x_ctor(self, e):
        a = e.get("args", ())
        if e.get("user"):
            return self.call(e, list(a), None)
        t = strip_ref(ptype(e["t"]))
        if t[0] in ("vec", "arr"):
            if e.get("stdlist") or (a and a[0].get("k") == "init"):
                return self.ex(a[0])
            if len(a) >= 2 and strip_ref(ptype(a[0].get("t") or ""))[0] == "int":
                v = Ty()
                v.elem = self.ex(a[1]) if not self.lit(a[1]) else Ty()
                v.ix = self.ex(a[0]) if not self.lit(a[0]) else Ty()
                if strip_ref(ptype(a[1].get("t") or "float"))[0] in ("vec", "arr"):
                    pass
                elif not self.lit(a[0]):
                    v.homo = True
                return v
            if a and strip_ref(ptype(a[0].get("t") or ""))[0] == "int":
                v = Ty()
                v.ix = self.ex(a[0]) if not self.lit(a[0]) else Ty()
                return v
            if len(a) >= 1:
                return self.ex(a[0])
            return Ty()
        if t[0] in ("tuple", "il"):
            v = Ty()
            v.comps = {k: self.ex(x) for k, x in enumerate(a)}
            return v
        if len(a) == 1:
            return self.ex(a[0])
        v = Ty()
        v.comps = {k: self.ex(x) for k, x in enumerate(a)}
        return v

    def x_lambda(self, e):
        t = Ty()
        t.rec = (e, self.env, self.key)
        return t

    def x_call(self, e):
        args = e.get("args", ())
        if e.get("user"):
            return self.call(e, list(args), None)
        n = (e.get("fn") or "").split("<")[0].split("::")[-1]
        if n in ("abs", "fabs", "fabsf"):
            self.ex(args[0])
            return Ty()                      # lengths compare across axes
        if n in ("floor", "ceil", "round", "trunc", "lround", "nearbyint", "move", "forward", "as_const", "ref", "cref"):
            return self.ex(args[0])
        if n in ("min", "max", "clamp", "fmin", "fmax", "copysign", "fdim", "fmod"):
            if len(args) == 1:
                t = self.ex(args[0])
                r = Ty()
                for v in list((t.comps or {}).values()) + ([t.elem] if t.elem else []):
                    r = self.unify(r, v, e["l"], "a minimum or maximum")
                return r
            ts = [self.ex(a) for a in args]
            if n == "copysign":
                return ts[0]
            live = [t for t, a in zip(ts, args) if not self.lit(a) and not (a.get("k") == "lambda")]
            if live and all(t.size is not None for t in live):
                s = frozenset().union(*[t.size for t in live])
                return Ty(size=s)
            r = Ty()
            for t in live:
                r = self.unify(r, t, e["l"], "a minimum or maximum")
            return r
        if n == "swap":
            return self.unify(self.ex(args[0]), self.ex(args[1]), e["l"], "a swap")
        if n in ("tie", "make_tuple", "make_pair", "forward_as_tuple"):
            v = Ty()
            v.comps = {k: self.ex(x) for k, x in enumerate(args)}
            return v
        if n == "get":
            import re
            m = re.search(r"get<(\d+)", e.get("sig") or e.get("fn") or "")
            b = self.ex(args[0])
            return self.comp(b, int(m.group(1))) if m else Ty()
        if n in ("begin", "end", "cbegin", "cend", "next", "prev", "max_element", "min_element", "find", "unique", "lower_bound"):
            ts = [self.ex(a) for a in args]
            return ts[0]
        if n in ("size", "ssize") and args:
            b = self.ex(args[0])
            if b.ix is None:
                b.ix = Ty()
            return b.ix
        if n in ("sort", "fill", "for_each", "transform", "any_of", "all_of", "none_of", "count_if", "accumulate", "find_if"):
            ts = [self.ex(a) for a in args]
            for t, a in zip(ts, args):
                if find(t).rec is not None and isinstance(find(t).rec, tuple):
                    v = find(ts[0])
                    if v.elem is None:
                        v.elem = Ty()
                    k = len(find(t).rec[0].get("params", ()))
                    if n not in ("accumulate", "transform"):
                        self.lam(find(t).rec, [v.elem] * k, e["l"])
            return Ty()
        for a in args:
            self.ex(a)
        return Ty()

    def x_mcall(self, e):
        args = list(e.get("args", ()))
        if e.get("user"):
            return self.call(e, args, e.get("b"))
        n = e.get("n")
        b = self.ex(e["b"]) if isinstance(e.get("b"), dict) else Ty()
        if n in ("size", "ssize", "length"):
            if b.ix is None:
                b.ix = Ty()
            return b.ix
        if n == "assign" and len(args) == 2 and strip_ref(ptype(args[0].get("t") or ""))[0] == "int":
            n = "resize"
            return self.x_mcall(dict(e, n="resize"))
        if n in ("push_back", "emplace_back", "insert", "assign"):
            if b.elem is None:
                b.elem = Ty()
            if n == "emplace_back" and len(args) > 1:
                v = Ty()
                v.comps = {k: self.ex(x) for k, x in enumerate(args)}
                self.unify(b.elem, v, e["l"], "an appended element")
                return Ty()
            if args:
                v = self.ex(args[-1])
                if not self.lit(args[-1]):
                    t = strip_ref(ptype(args[-1].get("t") or "float"))
                    if t[0] in ("int", "float") and not b.homo:
                        return Ty()          # a tuple built element by element
                    self.unify(b.elem, v, e["l"], "an appended element")
            return Ty()
        if n in ("at",):
            return self.element(b, e, args[0], e["l"])
        if n in ("front", "back"):
            if b.het:
                return self.comp(b, 0) if n == "front" else Ty()
            if b.elem is None:
                b.elem = Ty()
            return b.elem
        if n in ("begin", "end", "cbegin", "cend", "data", "rbegin", "rend"):
            return b
        if n in ("resize", "reserve"):
            ts = [self.ex(a) for a in args]
            if ts and not self.lit(args[0]) and not b.het:
                if b.ix is None:
                    b.ix = Ty()
                self.unify(b.ix, ts[0], e["l"], "a size")
                b = find(b)
            if len(ts) > 1 and not self.lit(args[1]) and not b.het:
                if b.elem is None:
                    b.elem = Ty()
                self.unify(b.elem, ts[1], e["l"], "a size")
            return Ty()
        for a in args:
            self.ex(a)
        return Ty()

    def x_opcall(self, e):
        op, args = e.get("op"), list(e.get("args", ()))
        if op == "()" and args:
            f = find(self.ex(args[0]))
            if isinstance(f.rec, tuple):
                return self.lam(f.rec, [self.ex(a) for a in args[1:]], e["l"])
            for a in args[1:]:
                self.ex(a)
            return Ty()
        if e.get("user"):
            return self.call(e, args, None)
        ts = [self.ex(a) for a in args]
        if op == "=":
            if self.lit(args[1]):
                return ts[0]
            return self.unify(ts[0], ts[1], e["l"], "an assignment")
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(ts) == 2:
            self.unify(ts[0], ts[1], e["l"], "a comparison")
            return Ty()
        if op in ("+", "-") and len(ts) == 2:
            return ts[0]
        if op in ("*", "->") and len(ts) == 1:
            v = find(ts[0])
            if v.elem is None:
                v.elem = Ty()
            return v.elem
        if op == "[]" and len(ts) == 2:
            return self.element(ts[0], e, args[1], e["l"])
        return ts[0] if op in ("++", "--", "+=", "-=") and ts else Ty()

    def x_new(self, e):
        t = Ty()
        for k in ("init", "e", "n", "size", "args"):
            v = e.get(k)
            for x in v if isinstance(v, list) else (v,):
                if isinstance(x, dict):
                    t2 = self.ex(x)
                    t = t2 if k in ("init", "e") else t
        return t

    # ------------------------------------------------------------ calls
    def lam(self, rec, ts, line):
        e, env, key = rec
        params, body = e.get("params", ()), e.get("body")
        if e.get("generic"):
            ins = [i for i in e.get("insts", ()) if i.get("body")]
            if not ins:
                return Ty()
            params, body = ins[0]["params"], ins[0]["body"]
        return self.invoke("lambda", params, body, ts, line, env, key)

    def invoke(self, nm, params, body, ts, line, env, key, inits=None):
        if len(self.stack) > 12 or self.stack.count(nm) > 1:
            return Ty()
        senv, sret, sfile, skey = self.env, self.ret, self.file, self.key
        self.key = key
        self.env = {"up": env}
        self.ret = Ty()
        for p, t in zip(params, ts):
            v = Ty()
            self.env[p["id"]] = v
            t = find(t)
            if t.size is not None:
                v.size = t.size
            elif t.rec is not None:
                self.env[p["id"]] = t
            else:
                self.unify(v, t, line, "an argument")
        for p in params[len(ts):]:
            self.env[p["id"]] = Ty()
        self.stack.append(nm)
        try:
            if nm in self.prog_files:
                self.file = self.prog_files[nm]
            for i in inits or ():
                self.member(i)
            self.st(body)
            return self.ret
        finally:
            self.stack.pop()
            self.env, self.ret, self.file, self.key = senv, sret, sfile, skey

    def member(self, i):
        e = i.get("e") if isinstance(i, dict) else None
        if not isinstance(e, dict):
            return
        t = self.ex(e)
        f = i.get("f") or i.get("n")
        m = self.field(i["cls"], f, None) if f and i.get("cls") else None
        if m is not None and not self.lit(e):
            self.unify(m, t, i.get("l", 0), "a member")

    def call(self, e, args, this):
        fd = self.prog.functions.get(e.get("sig"))
        if isinstance(this, dict):
            self.ex(this)
        ts = []
        for a in args:
            t = self.ex(a)
            ts.append(Ty() if self.lit(a) else t)
        if fd is None or fd.get("body") is None:
            return Ty()
        saved = self.file
        short = fd["name"].split("::")[-1]
        if short in FRAMES and len(ts) > FRAMES[short]:
            k = FRAMES[short]
            ts[k] = self.unify(ts[k], fixed(X, Y, Z, why="position"), e["l"], "a position")
        try:
            v = self.invoke(fd["name"], fd["params"], fd["body"], ts, e["l"], None, e.get("sig"), fd.get("inits"))
            if short in FRAMES:
                v = self.unify(v, fixed(X, Y, Z, why="position"), e["l"], "a position")
            return v
        finally:
            self.file = saved

    # ------------------------------------------------------------ statements
    def bind(self, d, t):
        if d.get("k") == "sbind":
            t = find(t)
            for k, b in enumerate(d["ids"]):
                self.env[b["id"]] = self.comp(t, k)
        else:
            self.env[d["id"]] = t

    def st(self, s):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "vd":
            v = self.env[s["id"]] = self.env.get(s["id"]) or Ty()
            i = s.get("init")
            if isinstance(i, dict):
                t = self.ex(i)
                if t.size is not None:
                    find(v).size = t.size
                elif isinstance(t.rec, tuple):
                    self.env[s["id"]] = t
                elif not self.lit(i):
                    self.unify(v, t, s["l"], "an initialisation")
        elif k == "sbind":
            self.bind(s, self.ex(s["init"]) if isinstance(s.get("init"), dict) else Ty())
        elif k == "rfor":
            self.st(s.get("init"))
            t = self.ex(s["range"])
            if t.elem is None:
                t.elem = Ty()
            et = Ty() if t.het else t.elem
            if s["var"].get("k") == "sbind":
                self.bind(s["var"], et)
            else:
                self.env[s["var"]["id"]] = et
            self.st(s["body"])
        elif k == "ret":
            e = s.get("e")
            if isinstance(e, dict):
                t = self.ex(e)
                if not self.lit(e):
                    if t.size is not None:
                        find(self.ret).size = t.size
                    else:
                        self.unify(self.ret, t, s["l"], "a result")
        elif k == "expr":
            self.ex(s.get("e"))
        else:
            for q in ("init", "cv", "c", "inc"):
                v = s.get(q)
                if isinstance(v, dict):
                    self.st(v) if q in ("init", "cv") else self.ex(v)
            for q in ("d", "s"):
                v = s.get(q)
                for x in v if isinstance(v, list) else (v,):
                    self.st(x)
            for q in ("a", "b", "body"):
                self.st(s.get(q))
            for h in s.get("h") or ():
                self.st(h.get("body") if isinstance(h, dict) else None)

    def root(self, fd, sig):
        self.env, self.ret, self.stack = {}, Ty(), []
        self.file = fd["file"]
        self.r.sites.add((fd["file"], fd["line"]))
        self.fields = {}
        self.invoke(fd["name"], fd["params"], fd["body"], [Ty() for _ in fd["params"]], fd["line"], None, sig, fd.get("inits"))
        self.finish()


def name(t):
    return "%s%s" % ("/".join(sorted(t.ax)).upper(), " (%s)" % t.why if t.why else "")


def scan(r):
    prog = run.program()
    inf = Infer(prog, r)
    inf.prog_files = {fd["name"]: fd["file"] for fd in prog.functions.values()}
    n = 0
    for sig, fd in prog.functions.items():
        if fd.get("body") is None or fd["name"] == "main":
            continue
        n += 1
        inf.root(fd, sig)
    r.info["functions"] = n


def axis_jobs():
    def go():
        r = run.Result()
        scan(r)
        return r
    return [run.Job("axes", go)]
