#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on the current
source of /repo.  Exit 0 held, 1 VIOLATION, 2 no answer."""
import json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import ir, run, registry
from sa.ir import Broken


def known():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> function=<name> what=<message>
                d = l[len("finding:"):].strip()
                pid = d.split("property=")[1].split()[0]
                what = d.split("what=", 1)[1].strip() if "what=" in d else ""
                fn = d.split("function=")[1].split()[0] if "function=" in d else ""
                out.append((pid, fn, what))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if pid not in registry.PROPS:
        print("unknown property", pid)
        return 2
    fn, rule, expl = registry.PROPS[pid]
    try:
        prog = run.program()
        res = run.run(fn(tier))
    except Broken as e:
        print("NO ANSWER property=%s: %s" % (pid, e))
        return 2
    errs = [r.error for _, r in res if r.error]
    viol = []
    for n, r in res:
        for f, l, msg, d in r.viol:
            viol.append({"analysis": n, "file": f, "line": l, "message": msg, "detail": d})
    viol.sort(key=lambda v: (v["file"], v["line"], v["message"]))
    kf = known()
    new, old = [], []
    for v in viol:
        if any(p == pid and (not w or w == v["message"]) and (not f or f == v["analysis"]) for p, f, w in kf):
            old.append(v)
        else:
            new.append(v)
    cov = {
        "explanation": expl + " Heights and amounts are treated as exact multiples of the cell height (no float rounding).",
        "rule": rule,
        "analyses": {n: dict(r.info, obligations=r.obligations, sites=len(r.sites), seconds=r.wall) for n, r in res},
        "obligations": sum(r.obligations for _, r in res),
        "discharged": sum(r.obligations for _, r in res) - len(viol),
        "sites": sorted({"%s:%s" % (os.path.basename(str(a[0])), a[1]) for _, r in res for a in r.sites})[:400],
        "source_digest": prog.digest,
        "files": [os.path.relpath(f, ir.REPO) for f in prog.files],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": sorted(set().union(*[r.assumed for _, r in res])) if res else [],
          "violations": len(new), "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s:%s)" % (pid, v["message"], v["file"], v["line"]))
    if new:
        d = os.path.join(HERE, "build", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + ".json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:20]:
            print("%s:%s: %s [%s]" % (v["file"], v["line"], v["message"], v["analysis"]))
            for k, x in list(v["detail"].items())[:6]:
                print("    %s: %s" % (k, x[:300]))
        for e in errs:
            print("note: " + e[-600:])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errs:
        for e in errs:
            print("NO ANSWER property=%s: %s" % (pid, e))
        return 2
    print("OK property=%s obligations=%d wall=%.1fs" % (pid, cov["obligations"], time.time() - t0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
