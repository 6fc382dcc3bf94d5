"""Flow-insensitive effects of the functions, read off the type-checked tree:
which members each function may write (directly or through references,
pointers and iterators derived from them), what it calls, which mutable state
outside its arguments it touches."""
from .ir import ptype
from .model import NS

READONLY_ALGS = {"accumulate", "max_element", "min_element", "any_of", "all_of", "none_of", "find", "find_if", "count",
                 "count_if", "distance", "max", "min", "to_string", "get", "make_tuple", "next", "prev", "equal",
                 "inner_product", "lower_bound", "upper_bound", "binary_search", "size", "begin", "end", "cbegin", "cend",
                 "is_sorted", "minmax_element", "as_const", "advance", "mismatch", "abs", "tie", "forward", "forward_as_tuple",
                 "isnan", "hypot", "ref", "cref", "addressof", "data", "empty", "ssize", "transform_reduce", "reduce"}
MUTATORS = {"push_back", "emplace_back", "clear", "resize", "assign", "insert", "erase", "pop_back", "swap", "reserve",
            "shrink_to_fit", "emplace", "fill", "open", "close", "write", "seed", "discard", "reset", "append", "merge",
            "splice", "sort", "push_front", "pop_front"}


def strip(e):
    while isinstance(e, dict):
        k = e.get("k")
        if k in ("cast", "copy", "paren"):
            e = e["e"]
        elif k == "un" and e.get("op") in ("*", "&"):
            e = e["e"]
        else:
            return e
    return e


class Fx:
    def __init__(self, fd):
        self.fd = fd
        self.writes = {}      # (cls, field) -> line
        self.reads = set()
        self.pwrites = {}     # parameter index -> line (written through a reference or pointer)
        self.calls = []       # (sig, fn, user, line, [(roots of arg)])
        self.gvars = {}       # global -> [line, ...]
        self.gwrites = {}
        self.statics = []
        self.vwrites = {}     # local id -> line
        self.locals = {}


def mutable_ref(t):
    t = t.strip()
    if t.endswith("&&"):
        return True
    if t.endswith("&"):
        return not (t.startswith("const ") or t[:-1].strip().endswith("const"))
    return False


def pointerlike(t):
    return t.rstrip("const ").endswith("*") or "__normal_iterator" in t or "iterator" in t or "_Bit_reference" in t


def roots(fx, e, alias, out=None, top=True):
    """what an lvalue-ish expression may designate: ('f',cls,name) members,
    ('p',index) parameters, ('v',id) locals, ('g',name) globals, 'this'"""
    out = set() if out is None else out
    e = strip(e)
    if not isinstance(e, dict):
        return out
    k = e.get("k")
    if k == "var":
        i = e["id"]
        if i in alias:
            out |= alias[i]
        out.add(("v", i))
    elif k == "gvar":
        out.add(("g", e["n"]))
    elif k == "this":
        out.add(("this",))
    elif k == "mem":
        out.add(("f", e.get("cls"), e["n"]))
        roots(fx, e["b"], alias, out, False)
    elif k == "idx":
        roots(fx, e["b"], alias, out, False)
    elif k in ("mcall", "opcall"):
        if k == "mcall":
            roots(fx, e["b"], alias, out, False)
        for a in e.get("args", ())[:1] if k == "opcall" else ():
            roots(fx, a, alias, out, False)
    elif k == "cond":
        roots(fx, e["a"], alias, out, False)
        roots(fx, e["b"], alias, out, False)
    elif k == "bin" and e.get("op") in ("+", "-"):
        roots(fx, e["a"], alias, out, False)
        roots(fx, e["b"], alias, out, False)
    elif k == "call":
        for a in e.get("args", ()):
            roots(fx, a, alias, out, False)
    return out


def walk(n, f):
    if isinstance(n, dict):
        f(n)
        for v in n.values():
            walk(v, f)
    elif isinstance(n, list):
        for v in n:
            walk(v, f)


def analyse_fn(fd):
    fx = Fx(fd)
    body = [fd.get("body"), fd.get("inits")]
    params = {p["id"]: i for i, p in enumerate(fd["params"])} if fd["params"] and "id" in fd["params"][0] else {}
    alias = {}
    for p in fd["params"]:
        if "id" in p and (mutable_ref(p["t"]) or pointerlike(p["t"])):
            alias[p["id"]] = {("p", params[p["id"]])}
    # references, pointers and iterators to other objects: iterate to a fixpoint
    decls = []

    def dec(n):
        k = n.get("k")
        if k == "vd":
            fx.locals[n["id"]] = n
            if n.get("static"):
                fx.statics.append(n)
            if isinstance(n.get("init"), dict) and (mutable_ref(n["t"]) or pointerlike(n["t"])):
                decls.append((n["id"], n["init"]))
        elif k == "rfor":
            v = n.get("var")
            if isinstance(v, dict) and v.get("id") is not None and (mutable_ref(v.get("t", "")) or pointerlike(v.get("t", ""))):
                decls.append((v["id"], n.get("range")))
            elif isinstance(v, dict) and v.get("k") == "sbind" and mutable_ref(v.get("t", "")):
                decls.extend((b["id"], n.get("range")) for b in v.get("ids", ()))
        elif k == "sbind":
            if isinstance(n.get("init"), dict) and (mutable_ref(n.get("t", "")) or any(mutable_ref(b.get("t", "")) for b in n.get("ids", ()))):
                decls.extend((b["id"], n["init"]) for b in n.get("ids", ()))
        elif k == "asg":
            a = strip(n["a"])
            if isinstance(a, dict) and a.get("k") == "var" and pointerlike(a.get("t", "")):
                decls.append((a["id"], n["b"]))
    walk(body, dec)
    for _ in range(6):
        ch = False
        for i, e in decls:
            r = roots(fx, e, alias)
            r.discard(("v", i))
            if not r <= alias.get(i, set()):
                alias[i] = alias.get(i, set()) | r
                ch = True
        if not ch:
            break

    def wr(e, line):
        for r in roots(fx, e, alias):
            if r[0] == "f":
                fx.writes.setdefault((r[1], r[2]), line)
            elif r[0] == "p":
                fx.pwrites.setdefault(r[1], line)
            elif r[0] == "g":
                fx.gwrites.setdefault(r[1], line)
            elif r[0] == "v":
                fx.vwrites.setdefault(r[1], line)

    def see(n):
        k = n.get("k")
        if k == "mem":
            fx.reads.add((n.get("cls"), n["n"]))
        elif k == "gvar":
            fx.gvars.setdefault(n["n"], []).append(n["l"])
        elif k == "asg":
            wr(n["a"], n["l"])
        elif k == "un" and n.get("op") in ("++p", "--p", "p++", "p--", "++", "--"):
            wr(n["e"], n["l"])
        elif k == "delete":
            pass
        elif k == "mcall":
            if n["n"] in MUTATORS:
                wr(n["b"], n["l"])
            fx.calls.append((n.get("sig"), n.get("fn"), n.get("user"), n["l"], [n["b"]] + list(n.get("args", ())), n.get("pt") or [], True))
        elif k == "opcall":
            if n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--"):
                wr(n["args"][0], n["l"])
            fx.calls.append((n.get("sig"), n.get("fn"), n.get("user"), n["l"], list(n.get("args", ())), n.get("pt") or [], False))
        elif k in ("call", "ctor"):
            fx.calls.append((n.get("sig"), n.get("fn"), n.get("user"), n["l"], list(n.get("args", ())), n.get("pt") or [], False))
            nm = (n.get("fn") or "").split("::")[-1].split("<")[0]
            if k == "call" and not (n.get("fn") or "").startswith(NS) and nm not in READONLY_ALGS:
                for a, t in zip(n.get("args", ()), list(n.get("pt") or []) + [""] * 20):
                    if mutable_ref(t) or pointerlike(t):
                        wr(a, n["l"])
            if nm == "tie":
                pass
    walk(body, see)
    # writes through std::tie(...) = ...

    def tie(n):
        if n.get("k") == "opcall" and n.get("op") == "=":
            a = strip(n["args"][0])
            if isinstance(a, dict) and a.get("k") == "call" and (a.get("fn") or "").split("::")[-1].startswith("tie"):
                for x in a.get("args", ()):
                    wr(x, n["l"])
    walk(body, tie)
    fx.alias = alias
    return fx


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.fx = {s: analyse_fn(f) for s, f in prog.functions.items() if f.get("body") is not None or f.get("ctor")}
        # a function that writes through a parameter writes what is passed
        for _ in range(8):
            ch = False
            for s, fx in self.fx.items():
                for sig, fn, user, line, args, pt, meth in fx.calls:
                    g = self.fx.get(sig)
                    if g is None:
                        continue
                    a2 = args[1:] if meth else args
                    for i in g.pwrites:
                        if i < len(a2):
                            for r in roots(fx, a2[i], fx.alias):
                                if r[0] == "f" and (r[1], r[2]) not in fx.writes:
                                    fx.writes[(r[1], r[2])] = line
                                    ch = True
                                elif r[0] == "p" and r[1] not in fx.pwrites:
                                    fx.pwrites[r[1]] = line
                                    ch = True
            if not ch:
                break

    def reach(self, start, stop=()):
        """functions reachable from the given qualified names; bodies of `stop` are not entered"""
        seen, work = {}, []
        for s, fx in self.fx.items():
            if fx.fd["name"] in start:
                work.append((s, None))
        while work:
            s, via = work.pop()
            if s in seen or s not in self.fx:
                continue
            seen[s] = via
            if self.fx[s].fd["name"] in stop:
                continue
            for c in self.fx[s].calls:
                if c[0] in self.fx:
                    work.append((c[0], s))
        return seen
