"""Extraction of /repo's type-checked program (clang AST -> JSON) and lookup."""
import json, os, re, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SD_REPO", "/repo")
FLAGS = ["-std=gnu++20", "-O2", "-fPIC", "-I" + REPO,
         "-DGFLAGS_IS_A_DLL=0", "-DGLOG_CUSTOM_PREFIX_SUPPORT"]


class Broken(Exception):
    """the check cannot give an answer (exit 2)"""


def ensure_tool():
    src = os.path.join(VERIF, "tool", "sdextract.cpp")
    out = os.path.join(VERIF, "build", "sdextract")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise Broken("building the extractor failed:\n" + r.stdout[-3000:])
    os.utime(out)
    return out


class Program:
    def __init__(self):
        self.functions = {}   # sig -> dict
        self.byname = {}      # qualified name -> [dict]
        self.records = {}
        self.globals = []
        self.files = []
        self.digest = ""

    def fn(self, name, *ptypes):
        """functions by qualified name; ptypes: substrings of parameter types"""
        r = [f for f in self.byname.get(name, []) if f.get("body") is not None or f.get("ctor")]
        if ptypes:
            r = [f for f in r if any(all_in(f, ptypes) for _ in [0])]
        return r


def all_in(f, pts):
    return all(any(p in q["t"] for q in f["params"]) for p in pts)


def sources():
    d = os.path.join(REPO, "soil_simulator")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".cc", ".cxx")))


def _bare(n):
    """an expression without positions, copies and conversions between integers"""
    if isinstance(n, list):
        return [_bare(x) for x in n]
    if not isinstance(n, dict):
        return n
    while isinstance(n, dict) and (n.get("k") in ("copy", "move") or n.get("k") == "cast" and not n.get("expl")):
        n = n["e"]
    if isinstance(n, dict) and n.get("k") == "call" and n.get("fn") == "std::move":
        return _bare(n["args"][0])
    return {k: _bare(v) for k, v in n.items() if k not in ("l", "t", "ov")} if isinstance(n, dict) else n


def _place(n):
    """a place whose evaluation has no effect and calls nothing of the project"""
    n = _bare(n)
    if not isinstance(n, dict):
        return False
    k = n.get("k")
    if k == "idx":
        return _place(n["b"]) and _pure(n["i"])
    if k == "mem":
        return _place(n["b"])
    if k == "un" and n.get("op") == "*":
        return _place(n["e"])
    return k in ("var", "this")


def _pure(n):
    n = _bare(n)
    if not isinstance(n, dict):
        return not isinstance(n, list)
    k = n.get("k")
    if k == "bin":
        return _pure(n["a"]) and _pure(n["b"])
    if k == "un":
        return n.get("op") in ("-", "+") and _pure(n["e"])
    return k in ("int", "var") or _place(n)


def _assign(s):
    """(target, value) of a statement that is one plain assignment"""
    e = s.get("e") if isinstance(s, dict) and s.get("k") == "expr" else None
    if isinstance(e, dict) and e.get("k") == "asg" and e.get("op") == "=":
        return e["a"], e["b"]
    if isinstance(e, dict) and e.get("k") == "opcall" and e.get("op") == "=" and len(e["args"]) == 2:
        return e["args"]
    return None


def _mentions(n, i):
    if isinstance(n, list):
        return any(_mentions(x, i) for x in n)
    return isinstance(n, dict) and (n.get("k") == "var" and n.get("id") == i or any(_mentions(v, i) for v in n.values()))


def exchange(n):
    """T t = x; x = y; y = t;  is read as swap(x, y)"""
    if isinstance(n, list):
        for x in n:
            exchange(x)
        return
    if not isinstance(n, dict):
        return
    if n.get("k") == "seq":
        ss, out, j = n["s"], [], 0
        while j < len(ss):
            d = ss[j]
            if isinstance(d, dict) and d.get("k") == "decl" and len(d["d"]) == 1 and d["d"][0].get("k") == "vd" and j + 2 < len(ss):
                v = d["d"][0]
                p, q = _assign(ss[j + 1]), _assign(ss[j + 2])
                x = v.get("init")
                if p and q and x is not None and not v["t"].endswith("&") and not v.get("static") and _place(x) and _place(p[1]) \
                        and _bare(p[0])  == _bare(x) and _bare(q[0]) == _bare(p[1]) \
                        and _bare(q[1]).get("k") == "var" and _bare(q[1]).get("id") == v["id"] and not _mentions(ss[j + 3:], v["id"]):
                    out.append({"k": "expr", "l": ss[j + 1].get("l", d.get("l")), "e": {
                        "k": "call", "fn": "std::swap", "sig": "std::swap", "user": False, "args": [p[0], q[0]],
                        "l": ss[j + 1].get("l", d.get("l")), "t": "void"}})
                    j += 3
                    continue
            out.append(d)
            j += 1
        n["s"] = out
    for v in n.values():
        exchange(v)


def load():
    tool = ensure_tool()
    files = sources()
    if not files:
        raise Broken("no sources in %s/soil_simulator" % REPO)
    root = os.path.join(REPO, "soil_simulator") + "/"

    def one(f):
        r = subprocess.run([tool, root, f, "--"] + FLAGS, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        return f, r

    prog = Program()
    h = hashlib.sha256()
    with ThreadPoolExecutor(8) as ex:
        for f, r in ex.map(one, files):
            if r.returncode != 0:
                raise Broken("cannot analyse %s:\n%s" % (f, r.stderr[-2000:]))
            h.update(r.stdout.encode())
            d = json.loads(r.stdout)
            prog.files.append(f)
            for x in d["functions"]:
                x["tu"] = os.path.basename(f)
                o = prog.functions.get(x["sig"])
                if o is None or (o.get("body") is None and x.get("body") is not None):
                    if x.get("internal"):
                        # internal linkage: keep per TU
                        prog.functions[x["sig"] + "@" + x["tu"]] = x
                    prog.functions[x["sig"]] = x
            for x in d["records"]:
                prog.records.setdefault(x["name"], x)
            for x in d["globals"]:
                prog.globals.append(x)
    seen = set()
    for s, x in prog.functions.items():
        if id(x) in seen:
            continue
        seen.add(id(x))
        prog.byname.setdefault(x["name"], []).append(x)
        exchange(x.get("body"))
    prog.digest = h.hexdigest()
    return prog


# ------------------------------------------------------------------ types
_tc = {}


def _split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


FLT = {"float", "double", "long double"}
INT = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char",
       "signed char", "unsigned char", "long long", "unsigned long long", "__int128",
       "std::size_t", "size_t", "std::ptrdiff_t", "wchar_t"}


def ptype(s):
    """-> ('float',) ('int',) ('bool',) ('vec',T) ('arr',T,n) ('rec',name)
    ('ptr',T) ('ref',T) ('tuple',[T]) ('str',) ('il',T) ('opaque',s) ('void',)"""
    r = _tc.get(s)
    if r is None:
        r = _tc[s] = _ptype(s.strip())
    return r


def _ptype(s):
    while True:
        if s.startswith("const ") and not s.endswith("*"):
            s = s[6:].strip()
        elif s.startswith("volatile "):
            s = s[9:].strip()
        elif s.startswith(("struct ", "class ", "enum ")):
            s = s.split(" ", 1)[1]
        else:
            break
    m = re.search(r"\s*\((&&?|\*)\s*(?:const)?\)((?:\[\d*\])+)$", s)
    if m:
        return ("ptr" if m.group(1) == "*" else "ref", ptype(s[:m.start()] + m.group(2)))
    if s.endswith("&&"):
        return ("ref", ptype(s[:-2]))
    if s.endswith("&"):
        return ("ref", ptype(s[:-1]))
    if s.endswith("*const"):
        s = s[:-5]
    if s.endswith("*const") or s.endswith("* const"):
        s = s[: s.rindex("const")].strip()
    if s.endswith("*"):
        return ("ptr", ptype(s[:-1]))
    if s.endswith("const"):
        s = s[:-5].strip()
    if s in FLT:
        return ("float",)
    if s in INT:
        return ("int",)
    if s in ("bool", "std::_Bit_reference", "_Bool", "std::vector<bool>::reference"):
        return ("bool",)
    if s == "void":
        return ("void",)
    if s.endswith("]") and re.search(r"\[\d*\](\[\d*\])*$", s):
        i = re.search(r"\[\d*\](\[\d*\])*$", s).start()
        base, dims = s[:i].strip(), s[i:]
        ns = [x for x in dims.replace("]", "").split("[") if x != ""]
        t = ptype(base)
        for n in reversed(ns):
            t = ("arr", t, int(n))
        return t
    if s.startswith("std::basic_string<") or s in ("std::string",):
        return ("str",)
    for k in ("std::vector<", "std::deque<", "std::list<"):
        if s.startswith(k) and s.endswith(">"):
            return ("vec", ptype(_split_args(s[len(k):-1])[0]))
    if s.startswith("std::initializer_list<"):
        return ("il", ptype(_split_args(s[len("std::initializer_list<"):-1])[0]))
    if s.startswith("std::array<"):
        a = _split_args(s[len("std::array<"):-1])
        return ("arr", ptype(a[0]), int(a[1].rstrip("ulUL")))
    if s.startswith(("std::tuple<", "std::pair<")):
        return ("tuple", tuple(ptype(x) for x in _split_args(s[s.index("<") + 1:-1])))
    if s.startswith(("std::uniform_", "std::mersenne", "std::linear", "std::basic_", "google::",
                     "std::optional", "std::function", "__gnu_cxx", "std::chrono", "std::unique_ptr",
                     "std::shared_ptr", "std::set", "std::map", "std::unordered", "std::source_location")):
        return ("opaque", s)
    if s.startswith("(lambda"):
        return ("lambda",)
    return ("rec", s)


def is_ref(t):
    return t[0] == "ref"


def strip_ref(t):
    while t[0] == "ref":
        t = t[1]
    return t
