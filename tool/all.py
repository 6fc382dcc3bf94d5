#!/usr/bin/env python3
"""all.py [C01,C02,...]: every check at once (development aid): jobs that interpret the same
routine in the same way are merged, so the whole tree is judged in a few minutes.
Prints the violations and errors per property; exit 0 when there are none.
SD_ROUTINES restricts the jobs to the names that match."""
import os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sa import registry, run
from sa.ir import Broken


def main():
    ids = sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(registry.PROPS)
    t0 = time.time()
    try:
        run.program()
    except Broken as e:
        print("cannot read the source: %s" % e)
        return 2
    only = re.compile(os.environ.get("SD_ROUTINES", ""))
    groups, jobs = {}, []
    for i in ids:
        for j in registry.PROPS[i][0]("quick"):
            if not only.search(j.name):
                continue
            s = getattr(j, "spec", None)
            if s is None or s[5] is not None:
                jobs.append(([i], j))
                continue
            fname, ls, relax, stale, model, post, pure, kw = s
            k = (fname, relax, stale, model, repr(sorted(pure)) if pure is not None else None, repr(sorted(kw.items())))
            g = groups.setdefault(k, [s, [], j.weight])
            g[1] += [(i, f) for f in ls]
            g[2] = max(g[2], j.weight)
    for (fname, ls0, relax, stale, model, post, pure, kw), ls, w in groups.values():
        made = []

        def tag(i, f):
            def mk():
                x = f()
                x.owner = i
                return x
            return mk
        # big groups are split so that they run side by side
        n = max(1, min(len(ls), 2 if w >= 20 else 1))
        for part in range(n):
            sub = ls[part::n]
            if not sub:
                continue
            j = run.interp_job(fname, [tag(i, f) for i, f in sub], relax=relax, stale=stale, model=model, pure=pure,
                               post=owners, **kw)
            j.weight = w
            jobs.append((sorted({i for i, _ in sub}), j))
    res = run.run([j for _, j in jobs])
    bad = 0
    for (own, j), (n, r) in zip(jobs, res):
        if r.error:
            bad += 1
            print("ERROR %s %s: %s" % (",".join(own), n, r.error[-400:]))
        vs = r.info.get("owners") or [(own[0],) + tuple(v) for v in r.viol]
        for v in vs:
            bad += 1
            print("VIOL %s %s %s:%s %s" % (v[0], n, os.path.basename(str(v[1])), v[2], v[3]))
    print("%s in %.0fs (%s)" % ("quiet" if not bad else "ALARMS", time.time() - t0, " ".join("%s=%s" % (n, r.wall) for n, r in res if r.wall > 40)))
    return 1 if bad else 0


def owners(r, ip, fd, out, m, ls):
    r.info = {"owners": [(x.owner, f, l, msg) for x in ls for (f, l, msg), d in x.viol.items()]}


if __name__ == "__main__":
    sys.exit(main())
