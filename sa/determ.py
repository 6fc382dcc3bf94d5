"""C12: nothing but the arguments, the prior state and the one shared
generator can influence a result."""
import re
from . import run, effects, memory
from .model import NS
from .effects import walk, strip, roots, mutable_ref

ENGINE = re.compile(r"mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|"
                    r"shuffle_order_engine|independent_bits_engine|minstd_rand|ranlux|std::mt19937|default_random_engine")
DIST = re.compile(r"_distribution(<|$)")
SOURCES = [
    (r"^(std::)?(time|clock|ctime|localtime|gmtime|difftime|mktime|gettimeofday|clock_gettime|times|ftime|timespec_get)$", "the time"),
    (r"^std::chrono::.*::now$", "the time"), (r"^std::chrono::.*current_zone", "the time"),
    (r"^(std::)?(rand|srand|random|srandom|rand_r|drand48|lrand48|mrand48|erand48|arc4random.*|getrandom|getentropy)$", "the C library's random numbers"),
    (r"^std::random_device", "a nondeterministic random source"),
    (r"^(std::)?(getenv|secure_getenv|setlocale|localeconv)$", "the environment"),
    (r"^(getpid|getppid|gettid|gethostname|getcwd|uname|sysconf|getrusage|isatty|sched_getcpu|get_nprocs)$", "the process or machine"),
    (r"^std::(thread|jthread|async|this_thread|packaged_task|promise|future|condition_variable|mutex)\b", "threads"),
    (r"^(pthread_|omp_|fork$|tbb::)", "threads"),
    (r"^std::hash<.*\*>", "addresses"),
    (r"^std::less<.*\*>", "addresses"),
    (r"^(std::)?(system|popen|tmpnam|tmpfile|mkstemp)$", "other programs"),
]
FILES = [(r"^std::filesystem::", "the file system"), (r"^std::basic_(ifstream|fstream|filebuf)", "files"),
         (r"^std::basic_istream", "input"), (r"^(std::)?(fopen|fread|fscanf|scanf|getc|getchar|open|read|stat|access)$", "files")]
LOCALS = re.compile(r"^(const )?std::(unordered_)?(multi)?(set|map)<[^,<>]*\*")
SCALARMATH = None
WRITERS = ("WriteSoil", "WriteBody", "WriteOutputs")


def refs(e):
    """all nodes of an expression"""
    out = []
    walk(e, out.append)
    return out


def engine(t):
    return bool(t) and bool(ENGINE.search(t)) and not DIST.search(t.split("<")[0])


class Scan:
    def __init__(self, prog, r):
        self.prog, self.r = prog, r
        self.ef = effects.Effects(prog)
        self.const = {g["name"]: g["const"] for g in prog.globals}

    def bad(self, fd, l, msg):
        self.r.viol.append((fd["file"], l, msg, {"function": fd["name"].replace(NS, "")}))

    def fn(self, sig, fd):
        fx = self.ef.fx[sig]
        nm = fd["name"].replace(NS, "")
        writer = nm.split("::")[-1] in WRITERS or sig in self.output
        r = self.r
        # hidden state
        for v in fx.statics:
            r.obligations += 1
            r.sites.add((fd["file"], v["l"]))
            const = v["t"].startswith("const ") or v["t"].rstrip().endswith("const")
            if v["id"] in fx.vwrites or (not const and self.escapes(fx, fd, v)):
                self.bad(fd, v["l"], "%s keeps %s between calls" % (nm, v["n"]))
            elif any(x.get("k") == "var" and not x.get("static") for x in refs(v.get("init"))) or \
                    any(x.get("k") in ("call", "mcall", "opcall") and x.get("user") for x in refs(v.get("init"))):
                self.bad(fd, v["l"], "%s in %s is fixed by the first call" % (v["n"], nm))
        for g, ls in fx.gvars.items():
            r.obligations += len(ls)
            t = None
            if g in self.const:
                gd = [x for x in self.prog.globals if x["name"] == g][0]
                if self.const[g] or gd["t"].startswith("const "):
                    continue
                if engine(gd["t"]) and g == NS + "rng":
                    continue
            elif g in ("std::cout", "std::cerr", "std::clog", "std::nothrow", "std::ignore", "std::placeholders::_1", "std::placeholders::_2"):
                continue
            elif not self.mut(fd, g):
                continue
            for l in ls:
                self.bad(fd, l, "%s uses the hidden state %s" % (nm, g.replace(NS, "")))
        # sources of influence
        for n in refs([fd.get("body"), fd.get("inits")]):
            k = n.get("k")
            if k in ("call", "mcall", "opcall", "ctor"):
                r.obligations += 1
                f = n.get("fn") or ""
                for pat, what in SOURCES + ([] if writer else FILES):
                    if re.search(pat, f):
                        self.bad(fd, n["l"], "%s depends on %s (%s)" % (nm, what, f.split("<")[0]))
                        break
                self.rng(fd, nm, n)
            elif k == "vd":
                t = n["t"]
                if engine(t) and not t.endswith("&") and not t.rstrip("const ").endswith("*"):
                    self.bad(fd, n["l"], "%s has a generator of its own (%s) besides the shared one" % (nm, n["n"]))
                if LOCALS.search(t):
                    self.bad(fd, n["l"], "%s orders %s by addresses" % (nm, n["n"]))
            elif k == "copy" and engine(n.get("t", "")):
                self.bad(fd, n["l"], "%s draws from a copy of the generator" % nm)
            elif k == "cast" and n.get("ck") == "PointerToIntegral":
                self.bad(fd, n["l"], "%s uses an address as a number" % nm)
            elif k == "bin" and n.get("op") in ("<", ">", "<=", ">=") and ptr(n["a"]) and ptr(n["b"]):
                self.bad(fd, n["l"], "%s orders addresses" % nm)
            elif k == "rfor" and "unordered_" in str(n.get("rt")):
                self.bad(fd, n["l"], "%s depends on the order of an unordered container" % nm)
            elif k == "asg" and engine(typ(n["a"]) or ""):
                self.bad(fd, n["l"], "%s replaces the generator" % nm)

    def mut(self, fd, g):
        for n in refs([fd.get("body"), fd.get("inits")]):
            if n.get("k") == "gvar" and n["n"] == g:
                t = n.get("t", "")
                if not t.startswith("const ") and not g.startswith("std::"):
                    return True
        return False

    def escapes(self, fx, fd, v):
        """the static may be changed through a reference"""
        for n in refs(fd.get("body")):
            if n.get("k") in ("call", "mcall", "opcall", "ctor"):
                pt = n.get("pt") or []
                for a, t in zip(n.get("args", ()), pt):
                    if mutable_ref(t) and ("v", v["id"]) in roots(fx, a, fx.alias):
                        return True
        return False

    def rng(self, fd, nm, n):
        k = n.get("k")
        args = list(n.get("args", ()))
        f = n.get("fn") or ""
        if k == "mcall" and engine(typ(n.get("b")) or "") and n["n"] in ("seed", "discard"):
            self.bad(fd, n["l"], "%s %ss the generator" % (nm, "reseed" if n["n"] == "seed" else "discard"))
        if k == "ctor" and engine(n.get("t", "")):
            self.bad(fd, n["l"], "%s makes another generator" % nm)
        if k == "opcall" and n.get("op") == "=" and args and engine(typ(args[0]) or ""):
            self.bad(fd, n["l"], "%s replaces the generator" % nm)
        if k == "opcall" and n.get("op") == ">>" and any(engine(typ(a) or "") for a in args):
            self.bad(fd, n["l"], "%s reads the generator from a stream" % nm)
        if k == "call" and not n.get("user") and any(engine(typ(a) or "") for a in args):
            s = f.split("<")[0]
            self.r.obligations += 1
            if s in ("std::shuffle", "std::random_shuffle", "std::sample") or s.startswith("std::ranges::"):
                self.bad(fd, n["l"], "%s uses a library-specific shuffle (%s)" % (nm, s))
            elif s == "std::swap":
                self.bad(fd, n["l"], "%s replaces the generator" % nm)

    def output(self):
        return set()


def typ(e):
    e = strip(e)
    return e.get("t") if isinstance(e, dict) else None


def ptr(e):
    t = e.get("t") if isinstance(e, dict) else None
    return bool(t) and t.replace("const", "").strip().endswith("*")


def scan(r):
    prog = run.program()
    s = Scan(prog, r)
    wr = s.ef.reach([NS + w for w in WRITERS] + [NS + "SoilDynamics::WriteOutputs"])
    # helpers of the writers: every caller is a writer or another of them
    callers = {}
    for sig, fx in s.ef.fx.items():
        for c in fx.calls:
            callers.setdefault(c[0], set()).add(sig)
    isw = {x for x in wr if s.ef.fx[x].fd["name"].split("::")[-1] in WRITERS}
    out = set(wr)
    while True:
        drop = {x for x in out if x not in isw and not (callers.get(x) and callers[x] <= out)}
        if not drop:
            break
        out -= drop
    ids = {id(s.ef.fx[x].fd) for x in out}
    s.output = {x for x, fx in s.ef.fx.items() if id(fx.fd) in ids}
    for sig, fx in s.ef.fx.items():
        fd = fx.fd
        if fd["name"] == "main":
            continue
        r.sites.add((fd["file"], fd["line"]))
        s.fn(sig, fd)
    # the only state with static storage is the generator
    for g in prog.globals:
        r.obligations += 1
        c = g["const"] or g["t"].startswith("const ")
        if g.get("static_local"):
            continue
        if not c and g["name"] != NS + "rng" and not g["file"].endswith("main.cpp"):
            r.viol.append((g["file"], g["line"], "mutable state with static storage: %s" % g["name"].replace(NS, ""), {}))
        if g["name"] == NS + "rng" and not re.search("mersenne_twister_engine<unsigned long, 32, 624, 397", g["t"]):
            r.viol.append((g["file"], g["line"], "the shared generator is not a std::mt19937", {}))
    r.info["functions"] = len(s.ef.fx)


def uninit(r, ip, fd, out, m, ls):
    for (f, l) in m.uninits:
        r.viol.append((f, l, "a value is read that was never given one on some path", {}))
    r.obligations += ip.stats.get("reads", 0) or len(ip.stats["stmts"])


def determ_jobs():
    def go():
        r = run.Result()
        scan(r)
        return r
    return [run.Job("influences", go)] + memory.memory_jobs(post=uninit, listeners=())
