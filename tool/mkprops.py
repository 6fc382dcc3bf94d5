#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tool/mkprops.py)."""
import json, os
P = []
S = "soil_simulator/"
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
            **({"observe_at": list(observe)} if observe else {}))))

STATE = [("terrain", "height of the ground per column", S+"types.hpp SimOut::terrain_"),
         ("body soil", "bottom/top of the soil resting on each wall, per column", S+"types.hpp SimOut::body_soil_"),
         ("soil parcels", "list of individually tracked amounts of body soil", S+"types.hpp SimOut::body_soil_pos_")]

prop("C01", "Soil is conserved by every soil movement",
 "Whatever the terrain, the body position and the random order, a simulation step never creates or destroys soil: the summed height of the ground plus the soil resting on the body is unchanged by relocating soil with the body, by pushing soil out of the body and by avalanches of ground soil or body soil. The only permitted loss is soil trapped between walls that cannot be placed anywhere, and it is accompanied by a warning.",
 ["inputs", "histories"], "all reachable soil states, body poses, repose angles and random orders; every path of every soil-moving routine",
 "Unit tests sample a few dozen hand-made columns and a handful of seeds; conservation must hold on every avalanche/placement path and any sequence of them.",
 ["relax.cpp", "intersecting_cells.cpp", "body_soil.cpp", "soil_dynamics.cpp"],
 [("avalanche of ground soil", S+"relax.cpp RelaxTerrain/RelaxUnstableTerrainCell"), ("avalanche of body soil", S+"relax.cpp RelaxBodySoil/RelaxUnstableBodyCell"),
  ("soil pushed by the body", S+"intersecting_cells.cpp MoveIntersectingBodySoil/MoveIntersectingBody/MoveBodySoil"), ("soil carried by the body", S+"body_soil.cpp UpdateBodySoil")], STATE, ["Check", "terrain csv + body soil csv"])

prop("C02", "Tracked soil parcels always match the soil resting on the body",
 "After every soil-moving phase, in every column and for each of the two walls the amount of soil resting on the wall equals the total of the tracked parcels registered for that column and wall, and no parcel is negative. Moving soil onto, off or along the body therefore changes the column and the parcels of the same column by the same amount.",
 ["inputs", "histories"], "every column, wall, parcel list and path of the soil-moving routines",
 "The consistency is only asserted by tests after a few scripted moves; any path that updates one side without the other breaks later steps.",
 ["relax.cpp", "intersecting_cells.cpp", "body_soil.cpp"],
 [("parcel bookkeeping in avalanches", S+"relax.cpp RelaxUnstableBodyCell, RelaxUnstableTerrainCell, RelaxBodySoil queue"), ("parcel bookkeeping when pushed", S+"intersecting_cells.cpp MoveBodySoil, MoveIntersectingBodySoil"), ("parcel rebuild after a move", S+"body_soil.cpp UpdateBodySoil")], STATE, ["CheckVolume"])

prop("C03", "Lost, displaced or inconsistent soil is never silent",
 "Whenever soil has to be discarded, whenever carried soil falls back to the ground because its wall cannot be found, whenever the movement of any body corner exceeds twice the smallest cell dimension, and whenever a validation of volume or soil layout fails, a warning is logged. None of these warnings is emitted when the corresponding condition does not hold.",
 ["inputs", "histories"], "all paths that reach one of the anomalous outcomes, and all paths that do not",
 "Tests look at return values and heights; none reads the log, so a dropped or misplaced warning passes.",
 ["intersecting_cells.cpp", "body_soil.cpp", "utils.cpp"],
 [("discard warning", S+"intersecting_cells.cpp MoveIntersectingBodySoil"), ("fallback warning", S+"body_soil.cpp UpdateBodySoil"), ("movement warning", S+"utils.cpp CheckBodyMovement"), ("validation warnings", S+"utils.cpp CheckVolume, CheckSoil")], (), ["log"])

prop("C04", "Moved soil is never placed inside or across a body wall",
 "When ground soil slides under a wall, the ground there never ends above the bottom of the lowest wall; when soil is placed on the lower of two walls sharing a column, its top never ends above the bottom of the upper wall; after the body has been pushed into the ground, the ground in every body column is at or below every wall bottom. Soil that a wall releases into the gap below it while the body is moving is exempt until ground soil is cleared out of the walls in the same step.",
 ["inputs", "histories"], "all wall and soil heights that are whole cell heights, for any repose angle, on every avalanche and placement path",
 "The capacity limits depend on inequalities between six heights; tests fix one numeric instance per branch.",
 ["relax.cpp", "intersecting_cells.cpp"],
 [("capacity caps of avalanches", S+"relax.cpp RelaxUnstableTerrainCell, RelaxUnstableBodyCell"), ("capacity caps when pushed", S+"intersecting_cells.cpp MoveBodySoil, MoveIntersectingBody, LocateIntersectingCells")], STATE, ["CheckSoil"])

prop("C05", "Avalanches go downhill only and stop at the repose slope",
 "Soil moves between two neighbouring columns only if the source top is higher than the destination top by more than the height difference allowed by the repose angle; the amount moved is never negative and never leaves the destination higher than the repose difference (to within one cell height) allows. Unless a wall limits the space or the moved parcel runs out, the remaining height difference does not exceed the allowed one.",
 ["inputs", "histories"], "all heights, repose angles in [0, pi/2], neighbour directions and body configurations",
 "Tests use a single repose angle and fixed heights per branch.",
 ["relax.cpp"],
 [("instability tests", S+"relax.cpp CheckUnstableTerrainCell, CheckUnstableBodyCell"), ("amount moved", S+"relax.cpp RelaxUnstableTerrainCell, RelaxUnstableBodyCell"), ("allowed slope", S+"relax.cpp RelaxTerrain, RelaxBodySoil")], STATE)

prop("C06", "Soil heights stay whole multiples of the cell height",
 "Starting from heights that are whole multiples of the cell height, every height of ground, body wall, body soil and parcel written by initialisation, body positioning, soil relocation or avalanche is again a whole multiple of the cell height.",
 ["inputs", "histories"], "all grids, poses, noise amplitudes and soil states",
 "Tests compare against literal heights with a tolerance on one cell size only.",
 ["soil_dynamics.cpp", "relax.cpp", "body_soil.cpp", "body_pos.cpp", "intersecting_cells.cpp"],
 [("quantised avalanche height", S+"relax.cpp"), ("rounded noise", S+"soil_dynamics.cpp Init"), ("rounded parcel", S+"body_soil.cpp UpdateBodySoil"), ("wall heights from grid levels", S+"body_pos.cpp UpdateBody")], STATE)

prop("C07", "Soil on the body always rests exactly on its own wall",
 "Whenever a step leaves soil on a wall, that wall exists in that column, the bottom of the soil equals the top of that same wall, and the top of the soil is not below its bottom; when a column loses all its soil its two recorded heights are either both cleared or both equal to the wall top.",
 ["inputs", "histories"], "all placements of soil on either wall on every path",
 "Tests check particular columns; a path that forgets to create the layer or uses the other wall's height is only exposed by specific configurations.",
 ["relax.cpp", "intersecting_cells.cpp", "body_soil.cpp"],
 [("layer creation", S+"relax.cpp RelaxUnstable*, intersecting_cells.cpp MoveBodySoil, body_soil.cpp UpdateBodySoil")], STATE, ["CheckSoil"])

prop("C08", "A step with a too small movement changes nothing",
 "If no corner of the body moved by at least half of the smallest cell dimension since the last performed step, the step reports that nothing was done, and terrain, body, soil, active areas, stored pose and random sequence are all left untouched.",
 ["inputs", "histories"], "all poses whose corner displacements are below the threshold, in any simulation state",
 "Tests compare a few fields after one sub-threshold move.",
 ["soil_dynamics.cpp", "utils.cpp"],
 [("movement gate", S+"soil_dynamics.cpp Step"), ("corner displacement", S+"utils.cpp CheckBodyMovement")], (), ["Step return value"])

prop("C09", "A performed step runs its phases completely and in order",
 "Every step that reports success first rasterises the body at the requested pose, then relocates carried soil, then clears body soil and afterwards ground soil out of the walls, and only then relaxes ground before body soil in each pass; the requested pose becomes the stored pose exactly on those steps and only after the carried soil was relocated relative to the previous pose.",
 ["inputs", "histories"], "all successful steps for both body kinds",
 "A reordering often gives identical results on the sampled scenes.",
 ["soil_dynamics.cpp", "intersecting_cells.cpp", "body_soil.cpp"],
 [("phase sequence", S+"soil_dynamics.cpp Step"), ("sub-phase order", S+"intersecting_cells.cpp MoveIntersectingCells"), ("pose update", S+"body_soil.cpp UpdateBodySoil")])

prop("C10", "The equilibrium flag tells the truth about the last pass",
 "After a step, the simulation is flagged as in equilibrium only if its last relaxation pass over ground and body soil found no unstable pair of columns; any avalanche in that pass leaves the flag cleared, and with a pass budget of zero the flag is cleared.",
 ["inputs", "histories"], "all soil states, pass budgets and random orders",
 "Tests check the flag in a few settled scenes.",
 ["relax.cpp", "soil_dynamics.cpp"],
 [("flag set and cleared", S+"relax.cpp RelaxTerrain, RelaxBodySoil"), ("flag cleared before relaxing", S+"soil_dynamics.cpp Step")], [("equilibrium flag", "result of last pass", S+"types.hpp SimOut::equilibrium_")])

prop("C11", "Relaxation work is bounded and covers the active area inside the grid",
 "A step performs at most the configured number of relaxation passes and stops as soon as one finds equilibrium; it does not stop before equilibrium while passes are left; every pass examines all columns of the union of the body area and the previously relaxed area; the relaxed area a pass reports reaches every column on its list of unstable columns; and the examined area, like the body and relaxed areas themselves, never reaches the outermost columns of the grid, so looking at the four neighbours stays inside the grid.",
 ["inputs", "histories"], "all grid shapes, body poses including those near the border, buffers and pass budgets",
 "Tests use square grids with the body near the centre.",
 ["soil_dynamics.cpp", "relax.cpp", "body_pos.cpp", "types.cpp"],
 [("pass loop", S+"soil_dynamics.cpp Step"), ("area union", S+"soil_dynamics.cpp Step"), ("area clamps", S+"relax.cpp RelaxTerrain, body_pos.cpp CalcBodyPos, types.cpp SimOut")],
 [("active areas", "index rectangles", S+"types.hpp SimOut::body_area_, relax_area_, impact_area_")])

prop("C12", "Results depend only on the inputs and the seeded generator",
 "Two runs with equal inputs, equal prior state and equal generator state produce equal results: no phase consults time, environment, addresses, unseeded randomness or hidden state kept between calls, no value is used before it is set, and the shared generator is only drawn from, never reseeded or replaced by library-specific shuffles.",
 ["inputs", "histories"], "all calls of all public operations",
 "A test would have to reproduce every hidden influence; repeated runs on one machine usually agree by luck.",
 ["soil_dynamics.cpp", "relax.cpp", "intersecting_cells.cpp", "body_soil.cpp", "body_pos.cpp", "utils.cpp", "types.cpp"],
 [("single shared generator", S+"soil_dynamics.hpp rng"), ("explicit swap shuffles", S+"relax.cpp, intersecting_cells.cpp, soil_dynamics.cpp")])

prop("C13", "Invalid configurations are rejected, valid ones accepted",
 "Constructing a grid, a body or a parameter set succeeds if and only if every documented requirement on its arguments holds; otherwise it fails with an invalid-argument error and no object is produced.",
 ["inputs", "configurations"], "all constructor arguments including boundary values",
 "Tests try one bad value per rule and never the boundary of each rule.",
 ["types.cpp", "types.hpp"],
 [("argument checks", S+"types.cpp Grid, Body, SimParam constructors")])

prop("C14", "X, Y and Z are never mixed up",
 "Every conversion between positions and cell indices, every bound, every stored area and every array access uses the extent, cell size and coordinate of its own axis, so that simulations on non-square grids and with unequal horizontal and vertical cell sizes are as correct as on cubic ones.",
 ["inputs", "configurations"], "all grid shapes and cell sizes; every arithmetic expression, comparison, subscript and argument",
 "Nearly all tests use the same extent in X and Y, where a mix-up is invisible.",
 ["body_pos.cpp", "utils.cpp", "types.cpp", "relax.cpp", "body_soil.cpp", "intersecting_cells.cpp", "soil_dynamics.cpp"],
 [("index conversions", S+"body_pos.cpp, body_soil.cpp UpdateBodySoil, utils.cpp CalcBodyFramePos"), ("extents", S+"types.cpp")])

prop("C15", "The two walls of a column are treated alike",
 "Which of the two wall slots holds a given wall is immaterial: exchanging the two slots of the columns involved (walls together with the soil and the parcels on them) before an avalanche of ground or of carried soil, or before a step of pushing soil out of a wall, yields the same outcome with the slots exchanged, as long as the two walls of a column do not start at the same height.",
 ["inputs"], "all column configurations and both slot assignments",
 "Tests write separate literal cases per slot and never compare them.",
 ["relax.cpp", "intersecting_cells.cpp", "utils.cpp"],
 [("mirrored branches", S+"relax.cpp CheckUnstable*/RelaxUnstable*, intersecting_cells.cpp MoveBodySoil")])

prop("C16", "Validation reports exactly the documented inconsistencies",
 "The layout validation fails if and only if some column of the body area violates one of the documented conventions (ground below walls, ordered wall and soil heights, walls apart, soil clear of the other wall, soil resting on an existing wall); the volume validation fails if and only if some column's parcels disagree with its soil or the total number of soil cells differs from the initial one. Both leave the simulation untouched.",
 ["inputs"], "all soil and body layouts",
 "Each rule is tested with one instance of one column.",
 ["utils.cpp"],
 [("layout rules", S+"utils.cpp CheckSoil"), ("volume rules", S+"utils.cpp CheckVolume")])

prop("C17", "The rasterised body covers the whole body and nothing stale",
 "Positioning the body first erases every wall of the previous pose, then records every wall surface of the body kind from its own corners; the body area encloses all corners plus the buffer, each wall's cells are merged in sorted order, and recording a wall never shrinks or drops a vertical extent that was already recorded while a slot is free or overlapping.",
 ["inputs", "histories"], "all poses and body geometries of both kinds",
 "Tests check selected cells for a few poses.",
 ["body_pos.cpp"],
 [("erase", S+"body_pos.cpp CalcBodyPos"), ("wall surfaces", S+"body_pos.cpp CalcBodyPos"), ("merge of extents", S+"body_pos.cpp UpdateBody, IncludeNewBodyPos")])

prop("C18", "Pose changes are rigid and body-frame coordinates are invertible",
 "For every non-zero orientation quaternion, normalised or not, rotating a vector preserves lengths and angles and follows conj(q) v q, expressing a cell in the body frame and transforming it back with the same pose returns the cell, the corners of the body keep their mutual distances and half-width offset under any pose, quaternion multiplication follows the Hamilton product, and Euler angles give the unit quaternion of the successive Z, Y and X rotations.",
 ["inputs"], "all non-zero quaternions, positions, cells and body geometries (exact arithmetic)",
 "Tests evaluate a few angles.",
 ["utils.cpp"],
 [("rotation", S+"utils.cpp CalcRotationQuaternion, MultiplyQuaternion"), ("body frame", S+"utils.cpp CalcBodyFramePos"), ("corners", S+"utils.cpp CalcBodyCornerPos, CalcNormal")])

prop("C19", "The movement test measures every corner in every direction",
 "The decision to update and the large-movement warning use the largest Euclidean displacement over all six corners between the stored pose and the requested one, compared with half and twice the smallest cell dimension respectively.",
 ["inputs"], "all pose pairs, body geometries and cell sizes",
 "Tests move the body rigidly along single axes, where any one corner suffices.",
 ["utils.cpp"],
 [("displacements", S+"utils.cpp CheckBodyMovement")])

prop("C20", "Output files are complete, new, and written without side effects",
 "Writing outputs emits one header and one row per ground column with that column's own coordinates and height, one row per wall column carrying soil with its top height (or a single dummy row when no parcel is recorded), and every body corner; each call writes to a new file numbered with the first number for which no ground (or body) file exists yet, as long as there is one, the soil on the walls going to the file of the same number, and the simulation is not modified.",
 ["inputs", "histories"], "all states and existing-file situations",
 "Tests do not read the files back.",
 ["utils.cpp", "soil_dynamics.cpp"],
 [("soil writer", S+"utils.cpp WriteSoil"), ("body writers", S+"utils.cpp WriteBody")])

prop("C21", "No dangling access, leak or uninitialised use in soil bookkeeping",
 "While the parcel list grows during a pass, no reference, pointer or iterator into it is used after the growth; everything allocated by a pass is released exactly once on every path; and no local value is read on a path where it was never given a value.",
 ["inputs", "histories"], "every path of every routine",
 "Undefined behaviour of this kind often yields the expected numbers in tests.",
 ["relax.cpp", "intersecting_cells.cpp", "body_soil.cpp", "body_pos.cpp", "utils.cpp"],
 [("parcel queue", S+"relax.cpp RelaxBodySoil"), ("late-bound locals", S+"body_soil.cpp UpdateBodySoil, relax.cpp CheckUnstable*")])

prop("C22", "Grid geometry and storage agree for every configuration",
 "A grid has 2n+1 columns per axis centred on zero with n the half extent in cells of that axis, its coordinate tables advance by exactly one cell of that axis, its cell area and volume follow from its cell sizes, and the simulation state allocates every ground, wall and soil array with exactly those dimensions, cleared, and with active areas spanning the interior.",
 ["configurations"], "all accepted grid configurations",
 "Tests construct a few grids, mostly square.",
 ["types.cpp", "types.hpp"],
 [("tables", S+"types.cpp Grid"), ("storage", S+"types.cpp SimOut")])

prop("C23", "Every detected instability is resolved by the matching move",
 "Whenever a pair of columns is found unstable, exactly the kind of move that was diagnosed is carried out (onto ground, onto bare wall or onto existing soil of the wall that was examined): the height that was tested is the one that receives the soil, and no diagnosed configuration is left without a move.",
 ["inputs"], "all column configurations and both diagnosis routines",
 "The pairing is exercised for one instance of each diagnosis.",
 ["relax.cpp"],
 [("diagnosis", S+"relax.cpp CheckUnstableTerrainCell, CheckUnstableBodyCell"), ("move", S+"relax.cpp RelaxUnstableTerrainCell, RelaxUnstableBodyCell")])

prop("C24", "Every neighbour and every direction is considered",
 "Ground and body-soil avalanches consider all four adjacent columns of every candidate; soil pushed out by the body tries all eight surrounding directions, going farther each time, before giving up; relocation of carried soil considers the nominal column and its eight neighbours; every body column is searched for ground inside either wall.",
 ["inputs", "histories"], "all candidate columns and random orders",
 "Shuffled orders hide a missing or duplicated direction in sampled runs.",
 ["relax.cpp", "intersecting_cells.cpp", "body_soil.cpp"],
 [("direction tables", S+"relax.cpp, intersecting_cells.cpp, body_soil.cpp"), ("candidate search", S+"relax.cpp LocateUnstableTerrainCell, intersecting_cells.cpp LocateIntersectingCells")])

prop("C25", "The initial terrain covers the whole grid and respects zero amplitude",
 "Initialisation assigns every ground column a height computed from its own position and the seeded permutation, rounded to the cell height, and proportional before rounding to the requested amplitude, and touches nothing but the ground and the generator.",
 ["inputs", "configurations"], "all grids, amplitudes and seeds",
 "Tests look at a few cells of one grid.",
 ["soil_dynamics.cpp"],
 [("noise terrain", S+"soil_dynamics.cpp Init")])

prop("C26", "Carried soil follows the wall it rests on",
 "Every parcel of soil that comes to rest on the body is recorded, in the body frame, at the top of its own wall in its own column. When the body moves, every remaining parcel keeps that position and is put in the column where the new pose takes it or in one of the eight columns around, on an existing wall: one whose top is less than a cell height away from the transported height whenever one is met, otherwise the closest of all walls of the nine columns.",
 ["inputs", "histories"], "all poses, wall layouts and parcels; every path that creates or relocates a parcel",
 "Tests relocate a few parcels with one wall in reach; the remembered-closest fallback and the per-branch positions are each exercised at most once.",
 ["body_soil.cpp", "relax.cpp", "intersecting_cells.cpp", "utils.cpp"],
 [("relocation", S+"body_soil.cpp UpdateBodySoil"), ("recorded position", S+"relax.cpp RelaxUnstable*, intersecting_cells.cpp MoveBodySoil, utils.cpp CalcBodyFramePos")], STATE)

prop("C27", "Accesses to tables of a fixed extent stay inside them",
 "No operation reads or writes outside a container whose extent the code itself decides: coordinate triples, poses and quaternions, area bounds, direction tables, the two walls and their soil layers, the list of parcels, local tables, and the permutation table of the noise for every grid; routines that visit the whole grid stay inside it. (Columns reached from the pose of the body, from recorded parcels or from neighbours of an active area are N04.)",
 ["inputs", "histories"], "every access on every path of every routine",
 "An access just outside a vector usually goes unnoticed in a run without sanitizers, and most happen only for particular indices.",
 ["relax.cpp", "intersecting_cells.cpp", "body_soil.cpp", "body_pos.cpp", "utils.cpp", "soil_dynamics.cpp", "types.cpp"],
 [("direction tables, wall layers", S+"relax.cpp, intersecting_cells.cpp, body_soil.cpp"), ("inner cells of a wall", S+"body_pos.cpp CalcRectanglePos, CalcTrianglePos"), ("permutation table", S+"utils.cpp simplex_noise")])

prop("C28", "Random orders are uniform permutations",
 "Wherever the simulator treats things in a random order (the directions of an avalanche or a push, newly drawn for every column; the unstable columns and the parcels in every pass; the permutation table of the noise), that order is a permutation drawn uniformly from all permutations, so that no direction, column or parcel is favoured.",
 ["inputs", "histories"], "all lists and tables of any length, all draws",
 "A biased shuffle still gives valid orders; the seeded tests fix a handful of them.",
 ["relax.cpp", "intersecting_cells.cpp", "soil_dynamics.cpp"],
 [("order of the directions and columns", S+"relax.cpp, intersecting_cells.cpp"), ("order of the parcels, permutation table", S+"soil_dynamics.cpp Step, Init")])

prop("C29", "Every routine changes only its own part of the state",
 "Initialisation changes the ground only; positioning the body changes the recorded walls and the area of the body only; relocating, pushing and relaxing soil change only the ground, the soil on the body and its parcels (with the pose of the body for the relocation, the equilibrium flag and the relaxed area for the relaxation), and clearing the walls of ground changes the ground only; the movement test, the validations, the output writers and the geometric helpers change nothing; and no step ever changes the grid, the parameters or the geometry of the body.",
 ["inputs", "histories"], "every routine with everything it calls",
 "Tests compare the fields they expect to change and rarely the others.",
 ["soil_dynamics.cpp", "relax.cpp", "intersecting_cells.cpp", "body_soil.cpp", "body_pos.cpp", "utils.cpp"],
 [("phases", S+"soil_dynamics.cpp Step"), ("read-only routines", S+"utils.cpp")], STATE)

# outside the reach of the technique
prop("N01", "Relaxation converges to a stable terrain",
 "Given enough passes, repeated relaxation of any initial terrain reaches a state in which no column pair exceeds the repose slope.",
 ["histories"], "all terrains and random orders", "Needs a termination measure over unbounded histories.",
 ["relax.cpp"], [("relaxation loop", S+"soil_dynamics.cpp Step")])
prop("N02", "The rasterised walls contain exactly the cells the surfaces cross",
 "The set of cells recorded for each wall equals the set of grid cells intersected by the exact wall surface at the given pose.",
 ["inputs"], "all poses and geometries", "Only a few poses are compared with hand-computed cells.",
 ["body_pos.cpp"], [("plane and line traversal", S+"body_pos.cpp CalcRectanglePos, CalcTrianglePos, CalcLinePos")])
prop("N03", "A step is fast enough for real-time use",
 "A simulation step on the documented grid sizes completes within the real-time budget.",
 ["inputs"], "all scenes of documented size", "Benchmarks sample a few scenes.",
 ["soil_dynamics.cpp"], [("step", S+"soil_dynamics.cpp Step")])
prop("N04", "No out-of-grid access when soil or body leaves the grid",
 "No operation accesses a column outside the grid even when the body or the displaced soil approaches or crosses the border.",
 ["inputs", "histories"], "all poses including partly outside the grid", "Tests stay near the centre.",
 ["body_pos.cpp", "body_soil.cpp", "intersecting_cells.cpp"], [("index computation", S+"body_pos.cpp UpdateBody")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
