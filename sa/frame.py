"""C29: every routine changes only the part of the state it is responsible for."""
from .model import NS
from . import effects, run

SOIL = {"SimOut.terrain_", "SimOut.body_soil_", "SimOut.body_soil_pos_", "body_soil.*"}
POSE = {"Body.pos_", "Body.ori_"}
STATE = ("SimOut", "Body", "Bucket", "Blade", "Grid", "SimParam", "body_soil", "SoilDynamics")
FRAME = {
    "SoilDynamics::Init": {"SimOut.terrain_"},
    "SoilDynamics::Step": SOIL | POSE | {"SimOut.body_", "SimOut.body_area_", "SimOut.relax_area_", "SimOut.impact_area_", "SimOut.equilibrium_"},
    "CalcBodyPos": {"SimOut.body_", "SimOut.body_area_"},
    "UpdateBody": {"SimOut.body_"},
    "IncludeNewBodyPos": {"SimOut.body_"},
    "UpdateBodySoil": SOIL | POSE,
    "MoveIntersectingCells": SOIL,
    "MoveIntersectingBodySoil": SOIL,
    "MoveBodySoil": SOIL,
    "MoveIntersectingBody": {"SimOut.terrain_"},
    "RelaxTerrain": SOIL | {"SimOut.equilibrium_", "SimOut.relax_area_"},
    "RelaxBodySoil": SOIL | {"SimOut.equilibrium_"},
    "RelaxUnstableTerrainCell": SOIL,
    "RelaxUnstableBodyCell": SOIL,
}
PURE = ["SoilDynamics::Check", "SoilDynamics::WriteOutputs", "CheckSoil", "CheckVolume", "CheckBodyMovement", "WriteSoil", "WriteBody",
        "LocateUnstableTerrainCell", "LocateIntersectingCells", "CheckUnstableTerrainCell", "CheckUnstableBodyCell",
        "CalcRectanglePos", "CalcTrianglePos", "CalcLinePos", "DecomposeVectorRectangle", "DecomposeVectorTriangle",
        "CalcBodyFramePos", "CalcBodyCornerPos", "CalcNormal", "CalcRotationQuaternion", "MultiplyQuaternion", "AngleToQuat", "simplex_noise"]
MUST = {"SoilDynamics::Init", "SoilDynamics::Step", "RelaxTerrain", "RelaxBodySoil", "MoveIntersectingCells", "UpdateBodySoil", "CalcBodyPos",
        "SoilDynamics::Check", "SoilDynamics::WriteOutputs", "CheckBodyMovement"}


def frames(r):
    prog = run.program()
    ef = effects.Effects(prog)
    names = {fx.fd["name"] for fx in ef.fx.values()}
    for n in MUST:
        if NS + n not in names:
            raise run.Broken("function %s not found" % n)
    for n, allowed in list(FRAME.items()) + [(p, set()) for p in PURE]:
        if NS + n not in names:
            continue
        for s in ef.reach([NS + n]):
            fx = ef.fx[s]
            if fx.fd.get("ctor"):
                continue
            r.obligations += 1
            r.sites.add((fx.fd.get("file", "?"), fx.fd.get("line", 0)))
            for (cls, f), line in fx.writes.items():
                c = cls.split("::")[-1]
                if not cls.startswith(NS) or c not in STATE:
                    continue
                c = "Body" if c in ("Bucket", "Blade") else c
                if c + "." + f in allowed or c + ".*" in allowed:
                    continue
                own = fx.fd["name"].replace(NS, "")
                r.viol.append((fx.fd.get("file", "?"), line, "%s changes %s of %s, which is not its part of the state" % (
                    n if own == n else "%s (in %s)" % (n, own), f, c), {}))
    r.info["routines"] = sorted(FRAME) + sorted(PURE)


def frame_jobs():
    def go():
        r = run.Result()
        frames(r)
        return r
    return [run.Job("effects of every routine", go)]
