"""C21: use of values never given, of released or moved storage, and leaks."""
from .run import Job, Result, interp_job
from .model import NS
from . import run


class Heap:
    """what is allocated is released on every path, within the iteration that allocated it"""
    wants_write = False

    def __init__(self):
        self.viol, self.n, self.sites = {}, 0, set()

    def bad(self, loc, msg, d=None):
        self.viol[(loc[0], loc[1], msg)] = d or {}

    def cut(self, ip, st, seg, why, node):
        for ev in seg:
            if ev.kind in ("new", "delete"):
                self.n += 1
                self.sites.add(ev.loc)

    def write(self, ip, s, ev):
        pass

    def iteration(self, ip, loop, head, back):
        h = set(head.x.get("heap", ()))
        for r in back.x.get("heap", ()):
            if r not in h:
                self.bad((ip.fstack[-1].get("file", "?") if ip.fstack else "?", r[1]), "what one iteration of a loop allocates is not released in it")

    def exit(self, ip, st, sig, fd):
        from .values import Ptr
        keep = None
        if sig[0] == "ret" and isinstance(sig[1], Ptr) and sig[1].lv is not None:
            keep = sig[1].lv.root
        self.n += 1
        for r in st.x.get("heap", ()):
            if r != keep:
                self.bad((fd.get("file", "?"), r[1]), "storage allocated here is not released on some path (%s)" % ("exception" if sig[0] == "throw" else "return"))


def collect(r, ip, fd, out, m, ls):
    for (f, l) in m.uninits:
        r.viol.append((f, l, "a value is read that was never given one on some path", {}))
    for (f, l), lv in m.dangles.items():
        r.viol.append((f, l, "a reference, pointer or iterator is used after its container grew or its storage was released", {"object": lv}))
    for (f, l) in m.badfrees:
        r.viol.append((f, l, "storage is released that is not allocated at this point (twice, or not by new)", {}))
    r.obligations += ip.stats.get("reads", 0) or len(ip.stats["stmts"])
    for k in ip.stats["stmts"]:
        if isinstance(k, tuple):
            r.sites.add(k)


def memory_jobs(post=None, listeners=(Heap,)):
    from . import soil, step, body, raster, geom, ctors, initial, moved, valid
    R, G = raster, geom
    todo = [(f, dict(kw)) for f, kw in soil.SOIL_JOBS.items()]
    todo += [("IncludeNewBodyPos", dict(model=R.PosModel)), ("UpdateBody", dict(model=R.RunModel)),
             ("CalcRectanglePos", dict(model=R.PlaneModel)), ("CalcTrianglePos", dict(model=R.PlaneModel)),
             ("DecomposeVectorRectangle", dict(model=R.DecModel)), ("DecomposeVectorTriangle", dict(model=R.DecModel)),
             ("CalcLinePos", dict(model=R.LineModel)),
             ("CalcRotationQuaternion", dict(model=G.RotModel, pure={})), ("MultiplyQuaternion", dict(model=G.QuatModel44, pure={})),
             ("CalcNormal", dict(model=G.QuatModel, pure={})), ("CalcBodyFramePos", dict(model=G.FrameModel, pure={})),
             ("CalcBodyCornerPos", dict(model=G.CornerModel)), ("AngleToQuat", dict(model=G.EulerModel, pure={})),
             ("SoilDynamics::Init", dict(model=initial.InitModel)), ("CheckBodyMovement", dict(model=moved.MModel)),
             ("Grid::Grid", dict(model=ctors.CModel)), ("Bucket::Bucket", dict(model=ctors.CModel)), ("Blade::Blade", dict(model=ctors.CModel)),
             ("CheckSoil", dict(model=valid.VModel)), ("CheckVolume", dict(model=valid.VModel)),
             ("SimParam::SimParam", dict(model=ctors.CModel)), ("SimOut::SimOut", dict(model=ctors.CModel)),
             ("CalcBodyPos", dict(model=body.BodyModel)), ("CalcBodyPos", dict(model=body.BodyModel, nth=1)),
             ("SoilDynamics::Step", dict(model=step.StepModel)), ("SoilDynamics::Step", dict(model=step.StepModel, nth=1))]
    out = []
    for f, kw in todo:
        j = interp_job(f, list(listeners), post=post or collect, **kw)
        j.weight = {"MoveIntersectingBodySoil": 60, "RelaxBodySoil": 50, "UpdateBodySoil": 20}.get(f, 3)
        out.append(j)
    return out
