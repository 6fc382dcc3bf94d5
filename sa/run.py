"""Runs analysis jobs in parallel processes and collects what they report."""
import multiprocessing as mp, sys, time, os, traceback
from . import ir
from .ir import Broken
from .model import Model, analyse, PURE, NS

sys.setrecursionlimit(20000)
PROG = None


def program():
    global PROG
    if PROG is None:
        PROG = ir.load()
    return PROG


class Job:
    def __init__(self, name, fn, weight=1):
        self.name, self.fn, self.weight = name, fn, weight


class Result:
    def __init__(self):
        self.viol = []        # (file, line, message, detail)
        self.obligations = 0
        self.sites = set()
        self.assumed = set()
        self.info = {}
        self.error = None
        self.wall = 0


def interp_job(fname, listeners, relax=False, stale=False, model=None, post=None, pure=None, **kw):
    """analyse one entry function with the given listener factories"""
    def go():
        r = Result()
        ls = [f() for f in listeners]
        m = (model or Model)(listeners=ls, relax=relax, stale=stale)
        m.pure = dict(PURE if pure is None else pure)
        ip, fd, out = analyse(program(), NS + fname, m, **kw)
        m.flush()
        for x in ls:
            if hasattr(x, "done"):
                x.done()
            r.viol += [(f, l, msg, d) for (f, l, msg), d in x.viol.items()]
            r.obligations += x.n
            r.sites |= x.sites
        r.assumed |= m.assumed
        r.info = {"paths": ip.stats["paths"], "passes": ip.stats["passes"],
                  "statements": len(ip.stats["stmts"]), "functions": sorted(short(c) for c in ip.stats["calls"]),
                  "loops": sorted("%s:%d %s" % (os.path.basename(f), n, k) for f, n, k in ip.stats["loops"])}
        if post:
            post(r, ip, fd, out, m, ls)
        return r
    j = Job(fname, go)
    j.spec = (fname, listeners, relax, stale, model, post, pure, kw)
    return j


def short(sig):
    return sig.split("(")[0].replace(NS, "")


def _work(a):
    job, q = a
    t = time.time()
    try:
        r = job.fn()
    except Broken as e:
        r = Result()
        r.error = "%s: %s" % (job.name, e)
    except Exception as e:
        r = Result()
        r.error = "%s: internal error: %s\n%s" % (job.name, e, traceback.format_exc()[-3000:])
    r.wall = round(time.time() - t, 1)
    q.put((job.name, r))


def run(jobs, procs=8):
    """-> [(name, Result)] in job order"""
    program()
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = sorted(enumerate(jobs), key=lambda x: -x[1].weight)
    live, res = {}, {}
    names = {}
    while todo or live:
        while todo and len(live) < procs:
            i, j = todo.pop(0)
            uid = "%d:%s" % (i, j.name)
            jj = Job(uid, j.fn)
            p = ctx.Process(target=_work, args=((jj, q),))
            p.start()
            live[uid] = p
            names[uid] = i
        try:
            n, r = q.get(timeout=1)
            res[names[n]] = r
            live.pop(n).join()
        except Exception:
            for n, p in list(live.items()):
                if not p.is_alive():
                    try:
                        while True:
                            n2, r = q.get(timeout=2)
                            res[names[n2]] = r
                            if n2 in live:
                                live.pop(n2).join()
                    except Exception:
                        pass
                    if n in live:
                        live.pop(n)
                        r = Result()
                        r.error = "%s: analysis process ended (exit %s)" % (n, p.exitcode)
                        res[names[n]] = r
    return [(j.name, res[i]) for i, j in enumerate(jobs)]
