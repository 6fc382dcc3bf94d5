"""Which analyses decide which property."""
import os
from . import soil, run, effects, step, body, raster, geom, follow, dirs, ctors, initial, moved, memory, valid, determ, warn, files, axes, mirror, bounds, shuffle, frame
from .run import Job, Result, interp_job
from .model import NS
from .poly import Poly

SOILF = soil.SOIL_JOBS
WEIGHT = {"MoveIntersectingBodySoil": 60, "RelaxBodySoil": 50, "UpdateBodySoil": 20, "MoveIntersectingBody": 6, "RelaxTerrain": 5}
SOIL_FIELDS = {"terrain_", "body_soil_", "body_soil_pos_"}
PHASES = [NS + f for f in SOILF] + [NS + "MoveBodySoil"]


def soil_jobs(*listeners, only=None):
    out = []
    for f, kw in SOILF.items():
        if only and f not in only:
            continue
        ls = []
        for c in listeners:
            if c is soil.Ledger:
                ls.append(lambda kw=kw: soil.Ledger(stale=kw.get("stale", False)))
            else:
                ls.append(c)
        j = interp_job(f, ls, **kw)
        j.weight = WEIGHT[f]
        out.append(j)
    return out


def static_job(name, fn):
    def go():
        r = Result()
        fn(r)
        return r
    return Job(name, go)


def soil_writers(fields=SOIL_FIELDS):
    """on the way from Step, only the analysed phases write the soil state"""
    def go(r):
        ef = effects.Effects(run.program())
        reach = ef.reach([NS + "SoilDynamics::Step"], stop=[NS + f for f in SOILF])
        if not reach:
            r.viol.append((run.program().files[0] if run.program().files else "?", 0, "SoilDynamics::Step not found", {}))
        for s in reach:
            fx = ef.fx[s]
            nm = fx.fd["name"]
            r.obligations += 1
            r.sites.add((fx.fd.get("file", "?"), fx.fd.get("line", 0)))
            if nm in [NS + f for f in SOILF]:
                continue
            for (cls, f), line in fx.writes.items():
                if f in fields and cls == NS + "SimOut":
                    if nm.endswith("SoilDynamics::Step") and f == "body_soil_pos_":
                        continue      # the shuffle of the parcels: decided on Step itself
                    r.viol.append((fx.fd.get("file", "?"), line,
                                   "%s, which is not one of the soil-moving phases, writes %s" % (nm.replace(NS, ""), f), {}))
        r.info["functions"] = sorted({ef.fx[s].fd["name"].replace(NS, "") for s in reach})
    return static_job("effects of Step", go)


PROPS = {}
TECH = {
    "C29": "static analysis: interprocedural effect analysis over the type-checked source",
    "C14": "static analysis: type inference over the type-checked source (axes as types, unification per call)",
    "C12": "static analysis: effect analysis of the call graph and definite-assignment dataflow over the type-checked source",
}
NOTE = {}


def prop(pid, rule, explanation):
    def deco(fn):
        PROPS[pid] = (fn, rule, explanation)
        return fn
    return deco


@prop("C01", "on every path through every phase: change of (sum of terrain) + change of (sum of soil on walls) == 0, "
      "loops by inferred affine invariants; a negative balance is accepted only on a path that logs a warning",
      "Abstract interpretation of every soil-moving phase with a ghost balance of the soil; no other function on the step path writes soil.")
def c01(tier):
    return soil_jobs(soil.Conserve) + [soil_writers()]


@prop("C02", "between any two generalisation points, per (wall, column): change of soil height == change of the sum of the parcels "
      "registered there; over each phase: change of the sum of all parcels == change of the soil on the walls; amounts >= 0",
      "Abstract interpretation of every soil-moving phase with a per-column ledger of heights and parcels.")
def c02(tier):
    return soil_jobs(soil.Ledger) + [soil_writers()]


@prop("C06", "every value written to a ground, wall, soil or parcel height is, as an expression, a whole multiple of the cell height",
      "Every height write on every path of the soil-moving phases, the entering of walls and the initialisation is checked against the algebra of whole multiples of the cell height.")
def c06(tier):
    return soil_jobs(soil.Multiples) + initial.multiple_jobs()


@prop("C07", "at every generalisation point each wall soil column written since the last one is empty, or starts at the top of its own, "
      "existing wall and is not upside down",
      "Abstract interpretation of every soil-moving phase; the column shape is checked wherever it was written.")
def c07(tier):
    return soil_jobs(soil.Resting) + [soil_writers()]


@prop("C04", "between any two generalisation points, per column: the ground is not raised above the bottom of a present wall, soil on the "
      "lower wall is not raised above the bottom of the upper wall; every column of the body area is searched for ground inside "
      "either wall, and each column found ends with its ground at or below that wall",
      "Abstract interpretation of the avalanches and of the clearing of the walls. Soil that a wall releases into the gap below it is exempt until the clearing phase.")
def c04(tier):
    js = soil_jobs(lambda: soil.Walls(True), only=("RelaxTerrain", "RelaxBodySoil", "MoveIntersectingBody"))
    js += soil_jobs(lambda: soil.Walls(False), only=("MoveIntersectingBodySoil",))
    js += soil_jobs(soil.GroundCleared, only=("MoveIntersectingBody",))
    return js


@prop("C05", "every avalanche changes two columns by opposite amounts, not negative towards the destination; before it the source is higher "
      "by more than cell_size_xy*tan(repose); after it the difference is at least that minus 1.5 cells and at most that plus half a "
      "cell, unless the destination reached a wall or the parcel is used up",
      "Abstract interpretation of both relaxation phases; heights before and after each avalanche are compared on every path.")
def c05(tier):
    return soil_jobs(soil.Slope, only=("RelaxTerrain", "RelaxBodySoil"))


@prop("C23", "for every examined pair of columns, with the documented receiving level as the oracle: if no soil moves, the pair is stable; "
      "if soil moves, it is put on that level",
      "Abstract interpretation of both relaxation phases; each iteration over the neighbours is compared with the documented case table.")
def c23(tier):
    return soil_jobs(soil.Diagnose, only=("RelaxTerrain", "RelaxBodySoil"))


def quiet_check(r):
    """the movement test and everything it calls has no effect"""
    ef = effects.Effects(run.program())
    for s in ef.reach([NS + step.CHK]):
        fx = ef.fx[s]
        nm = fx.fd["name"].replace(NS, "")
        r.obligations += 1
        r.sites.add((fx.fd["file"], fx.fd["line"]))
        for (cls, f), l in fx.writes.items():
            if cls in (NS + "SimOut", NS + "Body", NS + "Bucket", NS + "Blade", NS + "Grid", NS + "SimParam"):
                r.viol.append((fx.fd["file"], l, "%s, run before the decision to update, writes %s" % (nm, f), {}))
        for i, l in fx.pwrites.items():
            if nm == step.CHK:
                r.viol.append((fx.fd["file"], l, "%s changes its argument %s" % (nm, fx.fd["params"][i]["n"]), {}))
        for g, l in list(fx.gwrites.items()) + [(g, l[0]) for g, l in fx.gvars.items() if g.endswith("rng")]:
            r.viol.append((fx.fd["file"], l, "%s, run before the decision to update, uses %s" % (nm, g), {}))
        for v in fx.statics:
            if not v["t"].startswith("const"):
                r.viol.append((fx.fd["file"], v["l"], "%s keeps state between calls (%s)" % (nm, v["n"]), {}))
    r.info["functions"] = len(ef.fx)


@prop("C08", "a step that returns false has run the movement test only: no write to the simulation, body or generator on its path, and none "
      "in the movement test or anything it calls; with the flag set or cleared before",
      "Abstract interpretation of the step with the phases summarised, plus an effect analysis of the movement test.")
def c08(tier):
    return step.step_jobs("C08") + [static_job("effects of the movement test", quiet_check)]


@prop("C09", "on every path of the step: movement test, rasterisation, relocation, clearing of body soil, clearing of ground, then passes of ground "
      "before body-soil relaxation, each with the step's own arguments; result true exactly on those paths; stored pose unchanged until "
      "the relocation loop has ended, then equal to the requested one",
      "Typestate over the phases by abstract interpretation of both instances of Step; the pose is followed through UpdateBodySoil.")
def c09(tier):
    return step.step_jobs("C09") + [interp_job("UpdateBodySoil", [step.PoseStored], **SOILF["UpdateBodySoil"])]


@prop("C10", "every path of either relaxation phase that writes a soil height clears the flag; the ground phase sets it otherwise and the body-soil phase "
      "never sets it; no other phase writes it; the step clears it before the first pass and never ends flagged after a pass that moved soil",
      "Abstract interpretation of the relaxation phases with a hidden flag for 'soil moved', and of the step with the phases summarised.")
def c10(tier):
    js = step.step_jobs("C10")
    for fn, sets in (("RelaxTerrain", True), ("RelaxBodySoil", False)):
        for m, s0 in ((soil.Tracked, True), (soil.TrackedF, False)):
            j = interp_job(fn, [lambda sets=sets, s0=s0: soil.Flag(sets, s0)], model=m, **SOILF[fn])
            j.weight = WEIGHT[fn]
            js.append(j)
    return js


@prop("C11", "passes <= max_iterations_, no pass after equilibrium, none left unused before it; impact area == union of body and relaxed area before "
      "each pass; body and relaxed areas have lower index >= 1 and upper index <= 2*half_length of their own axis",
      "Abstract interpretation of the step with a ghost pass counter, of the body positioning and of the ground relaxation.")
def c11(tier):
    return step.step_jobs("C11") + body.pose_jobs("C11") + [interp_job("RelaxTerrain", [step.RelaxArea], **SOILF["RelaxTerrain"])]


def raster_jobs():
    R = raster
    return [interp_job("IncludeNewBodyPos", [R.NewPos], model=R.PosModel), interp_job("UpdateBody", [R.Runs], model=R.RunModel),
            interp_job("CalcRectanglePos", [lambda: R.Plane(4)], model=R.PlaneModel),
            interp_job("CalcTrianglePos", [lambda: R.Plane(3)], model=R.PlaneModel),
            interp_job("DecomposeVectorRectangle", [lambda: R.Decomp(False)], model=R.DecModel),
            interp_job("DecomposeVectorTriangle", [lambda: R.Decomp(True)], model=R.DecModel),
            interp_job("CalcLinePos", [R.Line], model=R.LineModel)]


@prop("C17", "both positioning routines: every height of the old body area is cleared, every wall of the kind is sampled from its own corners, sorted and "
      "recorded; sampled cells of a surface cover its bounding cells and keep the surface height; consecutive samples of a cell are merged "
      "into one extent; a new extent only ever grows the recorded ones",
      "Abstract interpretation of the positioning, sampling and recording routines with each callee summarised by what is checked on it.")
def c17(tier):
    return body.pose_jobs("C17") + raster_jobs()


@prop("C18", "as exact rational identities: rotation == conj(q) v q and preserves length for unit q; product == Hamilton product; normal is the "
      "unit cross product; body frame then pose gives the cell back; corner == pose(vertex) +- half width * normal",
      "Symbolic evaluation of the straight-line geometry functions to polynomials and polynomial identity testing by normal form (no solver).")
def c18(tier):
    return geom.geom_jobs()


@prop("C26", "every parcel created by an avalanche or a push is recorded at inverse-pose(x of its column, y of its column, top of its own wall); every parcel "
      "relocated with the body keeps its recorded position and goes to the column of its transformed position or one of its eight neighbours: "
      "on an existing wall within a cell height if one was met, else on the closest one remembered",
      "Abstract interpretation of the routines that create or relocate parcels, with the rotation opaque; the remembered column is followed through the loop.")
def c26(tier):
    return follow.follow_jobs()


@prop("C24", "the table of directions is complete and the loop over it is left early only when nothing is left to place; it runs for every candidate, and every "
      "column of the area that is too high above a neighbour is a candidate; a column passed over has no room; the distance grows by one per round, "
      "and a direction is given up only at a wall",
      "Abstract interpretation of the avalanches, the clearing phases and the relocation; contents of the (shuffled) direction tables, loop ranges, early exits and passed-over columns are checked.")
def c24(tier):
    return dirs.dir_jobs()


@prop("C13", "each constructor returns only on paths where every documented requirement holds and throws std::invalid_argument only on paths where one fails; "
      "what it returns holds the given values (body points relative to the origin)",
      "Path-sensitive analysis of the constructors (Grid, Bucket, Blade with their base, SimParam) over arbitrary arguments, vectors of any length included.")
def c13(tier):
    return ctors.accept_jobs()


@prop("C22", "half lengths == round(extent / cell of the axis); coordinate tables have 2n+1 entries, the first at the lower end and each one cell of the axis "
      "above the previous; areas and volumes follow; SimOut allocates (2nx+1)x(2ny+1) columns per layer, all zero, areas [1, 2n] per axis",
      "Symbolic evaluation of the constructors of the grid and of the simulation state; the loops that fill the tables are turned into closed forms.")
def c22(tier):
    return ctors.storage_jobs()


@prop("C25", "the loops of the initialisation cover both axes of the ground; each height is cell_height * round(amplitude * noise / cell_height), the noise taken at "
      "the column's own x and y position with a drawn permutation of 0..255; nothing else is written",
      "Abstract interpretation of Init with the noise function opaque; loop ranges, the value written and its dependencies are checked.")
def c25(tier):
    return initial.init_jobs()


@prop("C19", "with d = the six corner distances between the stored and the requested pose and m = the smaller cell dimension: result false exactly on paths with every "
      "d < m/2; a warning exactly on paths with some d > 2m",
      "Path-sensitive symbolic evaluation of the movement test with the corner positions as opaque functions of the pose.")
def c19(tier):
    return moved.move_jobs()


@prop("C21", "over every routine: a reference, pointer or iterator is not used once its container may have grown or its storage was released (container generations); "
      "what is allocated is released exactly once on every path and in the iteration that allocated it; no scalar is read on a path that never set it",
      "Ownership and typestate analysis on top of the abstract interpretation: allocation sets, container generations and definite assignment, followed on every path.")
def c21(tier):
    return memory.memory_jobs()


@prop("C16", "layout: every column of the body area is examined; accepted paths carry all documented conventions, rejected paths break one; volume: each parcel is taken "
      "once from its own column of a copy, every column of the grid is compared within the tolerance, the cells of ground and of soil on both walls are counted once "
      "over the whole grid and compared with the initial number; a warning exactly on rejection; nothing of the simulation is written",
      "Path-sensitive abstract interpretation of both validations over arbitrary heights; the facts of every accepted and rejected path are compared with the conventions.")
def c16(tier):
    return valid.valid_jobs()


@prop("C12", "no routine of the library reads mutable state with static storage other than the shared generator, keeps a static local it changes or that is fixed by the "
      "first call, calls a source of time, environment, threads, files or other randomness, or uses addresses as numbers or order; the generator is only drawn "
      "from (no copy, reseeding, replacement or library shuffle); no scalar is read on a path that never set it",
      "Effect analysis over every function of the type-checked program, plus definite assignment on every path of the routines.")
def c12(tier):
    return determ.determ_jobs()


@prop("C03", "on every path: soil is discarded iff a warning is logged (balance of the phase), carried soil is put on the ground iff a warning is logged, a corner moved by more "
      "than two cells iff a warning is logged, a validation fails iff a warning is logged; no other routine warns",
      "Abstract interpretation of the phases, of the movement test and of the validations, with the warnings as events compared with the balance or condition of their path.")
def c03(tier):
    return warn.warn_jobs()


@prop("C20", "on every path: the files opened are the ones of the series, named with a number found unused by a search from zero in steps of one in which every earlier number was found "
      "used; first text is the header; a loop nest over all columns writes one row per ground column / per wall carrying soil with the column's own position and height, a dummy "
      "row exactly without parcels; every row of a body is one corner at its pose and all six occur; nothing of the simulation is written; WriteOutputs calls both writers once",
      "Abstract interpretation of the writers with symbolic strings, streams and file-existence tests; the text written on every path is parsed back into rows.")
def c20(tier):
    return files.file_jobs()


@prop("C14", "every sum, comparison, choice, assignment, subscript, size and argument joins values of one axis, and every conversion between positions and indices multiplies or divides by "
      "the cell size of its own axis, where the library's members (extents, coordinates, heights, cell indices, stored areas, poses) fix the axes",
      "Type inference with axes as types over every function, instantiated per call; union-find over values, containers, records and subscripts.")
def c14(tier):
    return axes.axis_jobs()


@prop("C15", "for every pair of paths of which one is met exactly by the mirror image of a situation the other is met by: final heights, parcels, result and warnings are mirror images of each other",
      "Path-by-path comparison of the diagnosis and the move of an avalanche (from ground and from each wall) and of a step of pushing soil, for arbitrary columns, "
      "against the same routine with the two walls exchanged.")
def c15(tier):
    return mirror.mirror_jobs()


@prop("C27", "every access to a coordinate triple, pose, area, direction table, wall layer, parcel list, local container or permutation table has an index proven to lie "
      "inside the container; the routines that visit the whole grid stay inside it; tables sized by a count are filled no further than counted",
      "Abstract interpretation of every routine with the extent of each container; every index is proven from the facts of its path, by interval analysis in the noise "
      "(whose arguments are bounded from its call sites).")
def c27(tier):
    return bounds.bounds_jobs()


@prop("C28", "the partner of every swapped position comes from a draw whose range is exactly the positions not settled yet (or those settled, itself included), over all "
      "positions; directions are reshuffled for every column on every path, the unstable columns and the parcels once per pass, the table of the noise once",
      "Abstract interpretation of the routines that shuffle: swaps and draws are events with symbolic ranges, compared with the range of positions the loop steps through.")
def c28(tier):
    return shuffle.shuffle_jobs()


@prop("C29", "for every routine, the members of the simulation state written by it or anything it calls (directly, through references, pointers, iterators or parameters) "
      "are a subset of its part: noise -> ground; positioning -> walls; soil phases -> ground, carried soil and parcels; movement test, validation, writers, geometry -> nothing",
      "Interprocedural effect analysis of the type-checked program, per routine over its reachable call graph.")
def c29(tier):
    return frame.frame_jobs()
