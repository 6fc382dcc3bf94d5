"""C03: warnings are given exactly for the anomalous outcomes."""
from . import run, effects, soil, moved, valid
from .model import NS
from .poly import ZERO
from .logic import ge, gt, eq
from .soil import Obl, holds, path_of


def warnings(seg):
    return [e for e in seg if e.kind == "log" and (e.d.get("sev") is None or e.d.get("sev") >= 1)]


class Reported(Obl):
    """every stretch of a phase: a warning stands for soil that is discarded
    (or, while parcels are carried along, put on the ground), and the other way round"""

    def __init__(self, ground=False):
        super().__init__()
        self.ground, self.seen = ground, 0

    def cut(self, ip, st, seg, why, node):
        if why == "exit" and st.facts.dead:
            return
        w = warnings(seg)
        lost = [e for e in seg if e.kind == "loss"]
        if self.ground:
            lost = lost + [e for e in seg if e.kind in ("w", "rw") and e.d.get("tag") == "terrain" and st.facts.norm(e.new - e.old) != ZERO]
        self.n += 1
        for e in w:
            self.seen += 1
            self.ob(e.loc, bool(lost), "a warning is given although %s" % ("the wall of the soil was found" if self.ground else "no soil is discarded"), path=path_of(st))
        if self.ground:
            for e in lost:
                self.ob(e.loc, bool(w), "carried soil is put on the ground without a warning", path=path_of(st))

    def exit(self, ip, st, sig, fd):
        if not self.ground:
            g = st.facts.norm(st.ghost["GT"] + st.ghost["GS"])
            self.ob(ip.loc(fd), holds(st.facts, ge(g)), "soil disappears in %s on a path without a warning" % fd["name"].split("::")[-1], change=g, path=path_of(st))


def only(j, word):
    f = j.fn

    def go():
        r = f()
        r.viol = [v for v in r.viol if any(w in v[2] for w in word)]
        return r
    return run.Job(j.name, go)


def elsewhere(r):
    """no other routine warns"""
    ef = effects.Effects(run.program())
    mine = ef.reach([NS + f for f in list(soil.SOIL_JOBS) + ["CheckBodyMovement", "CheckVolume", "CheckSoil"]])
    n = 0
    for s, fx in ef.fx.items():
        def see(x):
            nonlocal n
            if x.get("k") == "ctor" and (x.get("fn") or "").startswith("google::LogMessage"):
                n += 1
                a = x.get("args", ())
                sev = a[2].get("v") if len(a) > 2 else 0
                r.obligations += 1
                r.sites.add((fx.fd["file"], x["l"]))
                if s not in mine and isinstance(sev, int) and sev >= 1 and fx.fd["name"] != "main":
                    r.viol.append((fx.fd["file"], x["l"], "%s warns although none of the reported conditions is examined there" % fx.fd["name"].replace(NS, ""), {}))
        effects.walk([fx.fd.get("body"), fx.fd.get("inits")], see)
    r.info["warnings"] = n


def warn_jobs():
    def go():
        r = run.Result()
        elsewhere(r)
        return r
    out = [run.Job("other routines", go)]
    for f, kw in soil.SOIL_JOBS.items():
        j = run.interp_job(f, [lambda f=f: Reported(f == "UpdateBodySoil")], **kw)
        j.weight = {"MoveIntersectingBodySoil": 60, "RelaxBodySoil": 50, "UpdateBodySoil": 20}.get(f, 3)
        out.append(j)
    out += [only(j, ("reported", "unreported", "has no result")) for j in moved.move_jobs()]
    out += [only(j, ("warning",)) for j in valid.valid_jobs()]
    return out
