"""The properties: one table from which properties.jsonl and MANIFEST.json are generated (gen.py)
and which run.py follows."""
import effects as _effects
import run as _run

D = "src/col2d/detection/"
S = "src/col2d/shape/"
T = "src/col2d/transformation2d/"

LAW_TECH = "abstract interpretation of MIR (guarded value numbering over rational functions, joins at merges, polyhedral emptiness) against laws over the public API"
LAW_NOTE = (
    "Every public entry point named by the laws is analysed from its compiled MIR, with all callees in auburn, glam and core inlined or summarised, for all inputs at once; every panic site and every law "
    "assertion reached is an obligation that must be shown unreachable/valid, and whatever cannot be shown is reported. Trusts: the summaries in engine/models.py, real arithmetic for f32 (verdict up to rounding), the MIR extractor, and the engine itself."
)


def laws(prop, tier):
    return _run.run_laws(prop, tier)


def logging_laws(prop, tier):
    """the laws of the other properties once more, on auburn built with logging, at any log level"""
    only = None
    if tier != "thorough":
        # the long EPA explorations of C12 and C13 stay for the thorough tier
        only = r"(?!law_c12_(sdfv|penetrates)|law_c13_gjk_(sdfv|penetrates))"
    return _run.run_laws(prop, tier, "law_", only, ("logging",))


P = {}


def prop(id, title, statement, over, text, why, files, mech, explain, analyses=(("laws", laws),), tech=LAW_TECH, note=LAW_NOTE, **kw):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, explain=explain, analyses=list(analyses), tech=tech, note=note, **kw)


prop(
    "C01",
    "Applying and unapplying a 2D placement are mutually inverse",
    "For every 2D placement type (identity, bare translation, uniform scale + translation, rotation + scale + translation, engine transform rotated about Z) with non-zero scale, unapply undoes apply and apply undoes unapply for every point, and likewise for directions. The builder and constructor functions produce placements that satisfy this too. Equality is up to floating-point rounding.",
    ["inputs"],
    "all placements with non-zero scale components (any rotation, any translation, non-uniform scale included) and all finite points and directions",
    "Unit tests check a handful of angles and points; a swapped sign or order of rotation and scale that only shows for non-uniform scale or non-axis angles escapes them.",
    [T + "transform2d.rs", T + "axis_transform2d.rs", T + "translate2d.rs", "src/col/bevy_transform.rs"],
    [("unapply reverses translate-rotate-scale in order", T + "transform2d.rs"), ("Rotor2d inverse rotation", T + "transform2d.rs")],
    "For each placement type the composition unapply∘apply (and the reverse, and both for directions) is computed from MIR as a rational function of all inputs and shown identical to the identity.",
)
prop(
    "C02",
    "Inverse, composition and relative placement obey the group laws",
    "For uniform non-zero scale: inverse(t) maps back what t maps, compose(a,b) acts as a after b, delta(a,b) is the placement of b seen from a (a∘delta = b), and directions follow the same laws. The origin of a placement is where it maps zero, identity/default values are neutral, and the relative placement of a frame with itself is the identity. Equality is up to floating-point rounding.",
    ["inputs"],
    "all pairs of placements of each type with uniform non-zero scale, all points and directions",
    "Existing tests compose a few fixed transforms; algebraic laws over all transforms cannot be sampled.",
    [T + "transform2d.rs", T + "axis_transform2d.rs", T + "translate2d.rs", T + "mod.rs", "src/col/transform.rs"],
    [("Invertible/Composable/DeltaTransform implementations", "src/col/transform.rs")],
    "17 laws per placement type, each an identity between two rational functions computed from MIR; plus neutrality of the constants.",
)
prop(
    "C03",
    "Directions map by an orientation-preserving isometry; rotors are rotations",
    "Mapping a direction keeps lengths, angles and orientation for every placement; displacements of points grow by exactly the reported scaling factor (never by more than it when the scale is non-uniform). Rotors act as rotation matrices: products add angles, the inverse undoes, angle extraction and conversion from a Z-rotation quaternion round-trip.",
    ["inputs"],
    "all placements with positive scale, all direction pairs, all angles, all Z-rotation quaternions of any non-zero norm",
    "Tests sample some angles with tolerance; orientation flips or scale leaks into normals at unusual scales are not sampled.",
    [T + "transform2d.rs", T + "transform2d.rs", T + "axis_transform2d.rs", "src/col/bevy_transform.rs"],
    [("apply_normal ignores scale and translation", T + "transform2d.rs"), ("Rotor2d as unit complex number", T + "transform2d.rs")],
    "Isometry, similarity and rotor laws as identities over the unit circle (cos²+sin²=1 and the addition theorems are the only facts about trigonometry).",
)
prop(
    "C04",
    "Engine transforms act exactly like the native placements",
    "An engine transform (translation, Z rotation, scale) used as a 2D placement maps points, directions and the origin as the equivalent native placement does, converts to it without loss, and composes, inverts and takes relative placements alike. Its 3D mapping agrees with the 2D one in the plane, and in 3D apply/unapply/inverse/compose obey their inverse and composition laws for any rotation.",
    ["inputs"],
    "all translations, non-zero scales, Z rotations (2D) and unit quaternions (3D), all points",
    "The bevy glue has next to no tests: none compares the two representations on non-trivial scale and rotation.",
    ["src/col/bevy_transform.rs", "src/col/transform.rs", "src/col2d/transformation2d/mod.rs"],
    [("Transformation2d/3d for Transform", "src/col/bevy_transform.rs"), ("From<Transform> for Transform2d", T + "transform2d.rs")],
    "Both representations are analysed from MIR on the same symbolic components; each observable is compared as a rational function.",
)
prop(
    "C05",
    "Support points are farthest points of their shape, in place and placed",
    "The support point of a ball, box, point, polygon or shape union along a direction belongs to the shape and no point of the shape lies farther along that direction; the zero direction still yields a defined point of a ball. A placed shape's support point is the placed local support point for the direction seen locally, for every placement type (uniform scale).",
    ["inputs"],
    "all shapes (polygons of up to 4 arbitrary vertices, and of 12 and 24 given ones; any convex shape for the placement law), all directions, all placements with positive uniform scale",
    "Tests probe axis directions on unit shapes; ties, oblique directions and rotated placements are not covered, yet every GJK answer rests on them.",
    [S + "ball2d/mod.rs", S + "box2d/mod.rs", S + "poly2d/mod.rs", S + "point2d.rs", S + "mod.rs", "src/col2d/collider2d.rs", D + "extreme_point.rs"],
    [("ExtremePoint2d implementations", S), ("ExtremePointT2d default", D + "extreme_point.rs")],
    "Membership and maximality of the support point shown for all shape parameters and directions; polygons for every ordering of the vertex scores; the placement law for an uninterpreted support function.",
)
prop(
    "C06",
    "Bounding boxes contain their shape and are tight",
    "The symmetric bounding box of a ball, box, point or polygon contains every point of the shape and touches it on both axes; covering a point grows a box to contain it, keeps everything inside, and grows no more than needed.",
    ["inputs"],
    "all balls, boxes, points, polygons of up to 3 arbitrary vertices and of 17 with one arbitrary anywhere (the accumulation step for any box and point)",
    "Tests use one or two shapes with positive coordinates; negative or asymmetric vertices decide whether absolute values are taken.",
    [S + "ball2d/mod.rs", S + "box2d/mod.rs", S + "poly2d/mod.rs", "src/col2d/mod.rs"],
    [("SymmetricBoundingBox2d implementations and cover", S)],
    "Containment and tightness for all parameter values; the covering step is shown inductive for an arbitrary box, so it carries to any number of vertices.",
)
prop(
    "C07",
    "Closed-form contacts report the shortest exact separating vector",
    "For ball, box and point pairs (unit scale) the verdict is whether the interiors overlap (touching is not overlap), and the reported vector has exactly the length of the gap or penetration and, moving the first shape by it, makes the two shapes just touch. This holds for every relative placement, including a centre exactly on an edge, on a diagonal or on the other centre.",
    ["inputs"],
    "all ball/ball, ball/point, box/point, box/ball, point/point, point/ball, point/box pairs, all sizes, all rigid relative placements",
    "Tests place shapes at a few positions; boundary placements (centre on the edge, in the corner region) are measure-zero and were in fact wrong in the original tree.",
    [S + "ball2d/v_ball2d.rs", S + "ball2d/v_point.rs", S + "box2d/v_point.rs", S + "box2d/v_ball.rs", S + "rounded_box2d/v_point.rs", S + "point2d.rs"],
    [("closed-form SdfvCommonRel2d implementations", S), ("reverse implementations through the inverse placement", D)],
    "Verdict, length and touching are compared with an independent distance formula on every region of the parameter space.",
)
prop(
    "C08",
    "The four query kinds agree and answer with defined numbers",
    "For every pair of closed-form shapes and every placement, collides, penetrates, distance_to and sdfv give the same verdict, penetrates/distance_to answer exactly when there is a collision/no collision, and the vectors they return equal the one sdfv returns. The vector reported by sdfv is always a defined number, whatever the shapes' sizes and wherever they are.",
    ["inputs"],
    "all closed-form pairs, all sizes, all placements (non-uniform scale included where invertible), and the collider-level wrappers",
    "Each query kind is a separate instantiation; tests call one kind per scenario and never compare the four on the same arbitrary input.",
    [D + "sdfv.rs", D + "collides.rs", D + "penetrates.rs", D + "distance_to.rs", "src/col2d/collider2d.rs"],
    [("const-generic SdfvCommonRel2d shared by the four query kinds", D)],
    "All four const-generic instantiations are analysed on the same arbitrary input and compared; NaN is tracked explicitly from every division and square root.",
)
prop(
    "C09",
    "The scalar signed distance is the signed length of the contact vector",
    "For every closed-form pair at unit scale the scalar signed distance is negative exactly when the shapes collide and its magnitude is the length of the contact vector. At collider level it is the scalar of the relative placement.",
    ["inputs"],
    "ball/ball, ball/point, box/point, box/ball, point/point at all sizes and rigid placements",
    "The scalar code duplicates the vector code by hand; no test compares them (and box v ball was wrong in the original tree).",
    [S + "ball2d/v_ball2d.rs", S + "ball2d/v_point.rs", S + "box2d/v_ball.rs", S + "box2d/v_point.rs", S + "rounded_box2d/v_point.rs", D + "sdf.rs"],
    [("SdfRel2d implementations", S)],
    "Sibling implementations (scalar and vector) are analysed on the same arbitrary input and compared.",
)
prop(
    "C10",
    "Queries depend on relative placement only and answer in world directions",
    "A query between two placed shapes equals the relative query under the placement of the second seen from the first, with the vector turned into world directions by the first shape's placement, for every placement type. Moving the whole scene rigidly keeps the verdict and turns the vector along; swapping the two shapes keeps the verdict and flips the vector.",
    ["inputs"],
    "all placement pairs of each type; arbitrary (uninterpreted) shapes for the plumbing, the closed-form pairs for scene invariance and mirror symmetry (distinct centres)",
    "Tests mostly place one shape at the origin; a vector left in local coordinates or a swapped relative placement only shows with both shapes moved and rotated.",
    ["src/col2d/collider2d.rs", D + "sdfv.rs", D + "collides.rs", D + "penetrates.rs", D + "distance_to.rs", D + "sdf.rs"],
    [("delta_transform then apply_normal at collider level", "src/col2d/collider2d.rs")],
    "The plumbing is analysed with a probe shape whose answers are arbitrary values of where it sees the other; the rest on the closed-form pairs.",
)
prop(
    "C11",
    "General collision verdicts agree with the shapes' geometry",
    "For shape pairs without a closed form, collides answers yes only if the difference points it has seen surround the origin and no only after a direction was seen along which the shapes are separated. So shapes clearly apart never collide and clearly overlapping shapes always do, wherever they are placed (up to rounding at the touching boundary).",
    ["inputs"],
    "arbitrary support answers for up to three questions (in general position); box/box and triangle/box pairs of fixed sizes (turned square, and a box turned and grown, too in the thorough tier) at every relative offset; polygons of 12 and 36 corners and a box turned and grown at every offset along several lines",
    "Tests probe a few offsets; whether the simplex keeps the right edge depends on the offset, and a wrong branch shows in slivers only.",
    [S + "local_minkowski_diff/v.rs", S + "local_minkowski_diff/mod.rs", D + "sdfv_minkowski.rs"],
    [("GJK simplex search", S + "local_minkowski_diff/v.rs"), ("Simplex2d::add_point", S + "local_minkowski_diff/mod.rs")],
    "The whole search is analysed for every offset at once: the abstract state branches on the regions of the plane where the code decides differently, and in each the verdict is compared with the true Minkowski difference.",
)
prop(
    "C12",
    "Every query ends after a bounded number of support questions",
    "Whatever the shapes answer, NaN and infinities included, and wherever they are placed, collides and distance_to ask each shape for at most 21 support points, penetrates and sdfv for at most 41, and then answer.",
    ["inputs"],
    "arbitrary floats (any bit pattern) as answers to every support question and as placement",
    "Tests only feed well-behaved convex shapes; an iteration without a limit hangs on degenerate or contradictory answers.",
    [S + "local_minkowski_diff/v.rs", S + "local_minkowski_diff/mod.rs"],
    [("iteration limits of GJK and EPA", S + "local_minkowski_diff/v.rs")],
    "The loops are analysed to their end with every float of the answers replaced by \"any float\"; the counters of questions are tracked exactly.",
)
prop(
    "C13",
    "Queries never panic, whatever the numbers",
    "No query, support function, bounding box, placement operation or contact computation panics for any shape parameters, any placement and any support answers, NaN, infinities, zero sizes and degenerate simplices included; a polygon without vertices is the only excluded shape.",
    ["inputs"],
    "arbitrary floats in every parameter and support answer, the full iteration count of GJK and EPA; polygons of up to 4 vertices",
    "The library indexes, asserts and has unreachable!() arms in its simplex code; tests never feed degenerate input, and sdfv did panic in the original tree.",
    [S + "local_minkowski_diff/v.rs", S + "local_minkowski_diff/mod.rs", S + "poly2d/mod.rs", D + "sdfv.rs"],
    [("unreachable!/assert arms of the simplex", S + "local_minkowski_diff/mod.rs"), ("unwraps and indexing", S)],
    "Every panic site reachable in the MIR (bounds checks, overflow checks, unwraps, asserts, unreachable) is an obligation over arbitrary floats.",
)
prop(
    "C15",
    "The Minkowski difference's support point is the shapes' support difference",
    "The support point of the difference of two shapes along a direction is the first shape's support point minus the placed support point of the second in the opposite direction as the second sees it. For two boxes its support value is the closed-form one.",
    ["inputs"],
    "arbitrary support functions, all placements of positive uniform scale, all directions; all pairs of boxes",
    "Tests compare a few rotations of boxes; a direction mapped with the wrong inverse only shows for rotated placements and asymmetric shapes.",
    [S + "local_minkowski_diff/mod.rs"],
    [("LocalMinkowskiDiff2d::extreme_point", S + "local_minkowski_diff/mod.rs")],
    "The formula is shown for uninterpreted support functions, so it holds for every convex shape.",
)
prop(
    "C16",
    "General gaps and depths are the true shortest ones",
    "For shape pairs without a closed form, the reported gap ends at the closest point of the difference and moving by it makes the shapes touch; the reported depth is along the last direction asked, moving by it separates the shapes, and it is the shortest such move up to one percent. This holds at every offset and does not depend on the scale of the scene.",
    ["inputs"],
    "arbitrary answers for the first two difference points, one arbitrary expansion point; box/box (unit and hundredth scale) and triangle/box pairs at every relative offset (turned square, a box turned and grown, and triangle overlap in the thorough tier); a polygon of 12 corners and a box turned and grown at every offset along several lines",
    "Tests probe a few offsets with axis-parallel answers; which edge is closest flips along curves in the plane of offsets.",
    [S + "local_minkowski_diff/v.rs", S + "local_minkowski_diff/mod.rs"],
    [("Simplex2d::distance_to_origin", S + "local_minkowski_diff/mod.rs"), ("EpaPoly2d::calculate_penetration", S + "local_minkowski_diff/mod.rs")],
    "GJK and EPA are analysed end to end for every offset at once, and in each region the vector (a rational function of the offset) is compared with the hand-given Minkowski polygon.",
)
prop(
    "C20",
    "Tile rectangles are walked completely, once, in the stated order; padding grows",
    "Every directed walk of a tile rectangle visits each tile exactly once, rows first, starting at the corner the direction names and never leaving the rectangle; an empty rectangle has no tiles. The direction-vector walk goes with the direction's signs, and padding moves both corners outwards.",
    ["inputs"],
    "all rectangle positions; sizes 0..3 by 0..3 and some up to 33 walked to the end, the first tile for any size; all paddings; all direction vectors",
    "There are no unit tests of the rectangle helper; collision resolution order depends on it.",
    ["src/utils/rect2.rs"],
    [("iterate_* flat_map over inclusive ranges", "src/utils/rect2.rs")],
    "Iterator pipelines are analysed from MIR for an arbitrary position; sizes up to 3×3, 5×5, 17×2 and 33×1 are unrolled, larger ones only for their first element.",
)
prop(
    "C17",
    "A tile map is a map: tiles read back as last written, all others untouched",
    "A new tile map reads zero everywhere. After setting a tile it reads back as the value written; after removing a tile it reads zero; every other tile, in the same chunk or any other, reads as before. Tile positions split into chunk and in-chunk position uniquely, with negative coordinates handled like positive ones.",
    ["inputs", "histories"],
    "every reachable content of the map (any chunks with any tiles), every position (including negative), every value; inductive over operations",
    "Tests set one tile in an empty map; a clobbered neighbour needs particular pairs of positions across chunk borders and particular contents.",
    [S + "tilemap.rs"],
    [("set_tile / remove_tile / get_tile over chunks", S + "tilemap.rs"), ("modular decomposition of positions", S + "tilemap.rs")],
    "Each operation is analysed on a map of arbitrary content (any subset of chunks present, any tiles in each), so the result holds after any history; chunk contents are symbolic arrays, positions symbolic integers.",
)
prop(
    "C18",
    "Tile map events report exactly what changed, and empty chunks go away",
    "Setting a tile in an absent chunk reports exactly the creation of that chunk; changing a tile of a present chunk reports exactly that it changed; writing the value already there reports nothing. Removing the last tile of a chunk reports its removal and drops the chunk; removing another set tile reports a change; removing from an absent chunk reports nothing. Other chunks are not reported and stay as they are.",
    ["inputs", "histories"],
    "every reachable content of the map, every position and value; inductive over operations",
    "No test looks at the events; which one is due depends on the whole content of the chunk.",
    [S + "tilemap.rs", "src/utils/publisher.rs"],
    [("notifications in set_tile / remove_tile", S + "tilemap.rs")],
    "The event list and chunk presence after one operation on a map of arbitrary content are compared with the specification; \"every tile is zero\" is treated as a quantifier over the 256 tiles.",
)
prop(
    "C21",
    "Tile map collisions are where tiles are set; resolving pushes out of each tile",
    "A point collides with (and penetrates) a tile map exactly when the tile its position rounds to is set, for every placement type, so everywhere inside a set tile and nowhere inside an unset one; nothing collides with an empty map. Resolving a ball or box against a map visits the tiles its bounding box reaches, row by row from the side the direction comes from, and for each set tile that it penetrates from where it is by then moves it by that penetration vector; unset tiles, unpenetrated tiles and an empty map move nothing.",
    ["inputs"],
    "every content of the map, every position (including negative), every placement type; resolution of bodies that reach one tile (anywhere), or two or four tiles around a chunk corner, or a block of 7×7 or 9×5 tiles with three of them set, all directions, for an arbitrary penetration answer",
    "Tests never query or resolve a tile map against a shape.",
    [S + "tilemap.rs"],
    [("SdfvCommonRel2d for Tilemap", S + "tilemap.rs"), ("simple_resolve_ball / simple_resolve_box", S + "tilemap.rs"), ("for_tiles_in_rect", S + "tilemap.rs")],
    "The query is analysed on a map of arbitrary content and compared with the tile read at the rounded position; resolution is compared with its specification, with penetrates_rel as an uninterpreted function of shapes and placement.",
)
prop(
    "C22",
    "World and tile positions convert by rounding to the nearest tile",
    "A world position converts to the nearest tile (at most half a tile away on each axis), a tile converts to its centre and back to itself, and quantising a box yields exactly the range of tiles that its lower and upper corners fall in, containing every tile that the box's points round to.",
    ["inputs"],
    "every world position and tile, every box of non-negative half size",
    "Untested for negative coordinates, where rounding and truncation differ.",
    [S + "tilemap.rs"],
    [("world_to_tile_pos / tile_to_world_pos / quantize", S + "tilemap.rs")],
    "Rounding is an integer variable with its defining inequalities; each law is an emptiness question over the regions of the abstract domain.",
)
prop(
    "C23",
    "Approximate equality is reflexive, NaN-safe, symmetric for vectors and bounded",
    "A finite value approximately equals itself; NaN approximately equals nothing, not even zero or itself; no finite number is near infinity. Scalars are equal exactly when their difference is within the tolerance relative to the first (absolute against zero), vectors are symmetric and never further apart than the relative tolerance.",
    ["inputs"],
    "all finite values and vectors (2D, 3D), all positive tolerances, NaN in any component",
    "The helper underlies every assertion of the test-suite, so tests cannot expose it; NaN v zero was wrong in the original tree.",
    ["src/utils/approx.rs"],
    [("Approx for f32, Vec2, Vec3", "src/utils/approx.rs")],
    "Laws over all values; NaN and infinities are explicit members of the abstract value domain.",
)
prop(
    "C24",
    "Publishers deliver every event exactly once and in order",
    "A ledger starts empty and records every event exactly once in the order of notification. A set ledger holds exactly the notified events, one notified twice being held once. A callback publisher calls every subscriber attached so far exactly once per event, in the order of attachment, with the event itself, and calls nobody for events before it was attached.",
    ["inputs", "histories"],
    "arbitrary events; three notifications (ledgers), four notifications interleaved with two subscriptions (callbacks); 40 notifications, 12 subscribers",
    "No unit test exercises the publishers beyond construction.",
    ["src/utils/publisher.rs"],
    [("Publisher implementations", "src/utils/publisher.rs")],
    "The publishers are analysed from MIR with arbitrary events; dynamic calls are resolved through the vtables recorded at the unsizing coercions.",
)
prop(
    "C25",
    "Interpolation and squaring follow their definitions",
    "Linear interpolation returns its ends at 0 and 1, is linear in the parameter, symmetric, stays between its ends for parameters in [0,1], and acts by component on vectors; squaring multiplies a value with itself.",
    ["inputs"],
    "all finite values and parameters",
    "Untested in the suite.",
    ["src/lib.rs"],
    [("Lerp and Square", "src/lib.rs")],
    "Identities between rational functions computed from MIR.",
)

prop(
    "C14",
    "Answers depend on the arguments alone, and asking changes nothing",
    "Every query and operation is a function of its arguments: it keeps no state between calls (no changeable static, thread local or hidden cell in any type), reads nothing of the world (clock, environment, random numbers, files, addresses, the random order of hash tables) and leaves nothing behind but its result and what it was given to change. Only saving, loading (their file) and logging (when turned on) touch the world. So asking twice, from any thread, in any order, gives the same answer.",
    ["inputs", "histories", "schedules"],
    "every function, closure and type of the crate, whether or not anything calls it; with logging off and on",
    "A test sees one run on one thread; a cache, a counter or an order taken from a hash table gives the right answer the first time.",
    [S + "tilemap.rs", S + "local_minkowski_diff/v.rs", D + "sdfv.rs", "src/lib.rs", "src/utils/publisher.rs"],
    [("queries by shared reference over plain data", D), ("hash maps used for lookup only", S + "tilemap.rs")],
    "Every call, static, cast and field of every function and type of the crate is classified; whatever is not on the list of functions of their arguments is reported with its place.",
    analyses=(("effects", _effects.effects),),
    tech="effect analysis over the MIR of every function (call classification, statics, address casts, hash-order walks) and interior-mutability check over every type",
    note="Decides every function body of the crate in both feature sets. Trusts that core, alloc, glam, lk_math, round_to and serde are functions of their arguments outside the doors listed in engine/effects.py, and excludes what callers do inside their own closures, shapes and loggers.",
    assume=[
        "core, alloc, the value-like parts of std, glam, lk_math, round_to, serde, serde_json, serde_with and bevy's Transform depend on nothing but their arguments, outside the doors listed in engine/effects.py",
        "callers' own closures, shapes and loggers are not judged",
        "a walk of a hash table is only accepted when it ends in any, all or count",
        "the features serde, tilemap, bevy and (second run) logging are what is analysed",
    ],
)
prop(
    "C19",
    "Saving and loading a tile map report every failure and lose nothing",
    "Saving answers Ok only when the named file now holds the whole map (written, flushed, every step successful), and an error otherwise; it works whenever no step fails and writes no other file. Loading answers Ok only when the file could be opened, read and parsed, then with exactly what the file holds, and an error (no panic, no default map) otherwise. So a map saved and loaded again reads the same at every tile.",
    ["inputs", "faults"],
    "every content of the map, every tile position, a failure at every I/O step (create, write, flush, open, read, parse), any previous content of the file",
    "Tests serialise to a string in memory; a failing disk, an old longer file or an unflushed buffer never occurs in them.",
    [S + "tilemap.rs"],
    [("Tilemap::save", S + "tilemap.rs"), ("Tilemap::load", S + "tilemap.rs")],
    "The I/O protocol is analysed from MIR against a file system whose every step may fail (file handles, buffers and file contents are tracked as abstract values). The encoding is analysed separately: the Serialize and Deserialize code of the map and its chunks (and of serde_with, serde_arrays and lk_math below them) is interpreted from MIR against a tree-shaped data format, for the empty map, for one arbitrary tile value in an arbitrary chunk (first, last and an inner cell), and for two chunks in either order; reading back gives the same tile at an arbitrary position.",
    note=LAW_NOTE + " std::fs, BufWriter/BufReader and serde_json are replaced by the file-system model in engine/io_models.py; that serde_json writes and reads its text form of serde's data model without loss is assumed.",
)
prop(
    "C26",
    "Turning logging on changes no answer and breaks none",
    "With the logging feature compiled in, at whatever log level, and even when the level changes while a query runs, every answer is what it is without logging and no log statement panics: the placement, support, contact, distance, tile-map, termination and no-panic guarantees of the other properties hold unchanged.",
    ["inputs", "schedules"],
    "every log level at every log statement, over all inputs of the laws of the other properties",
    "The tests run at one level; log arguments are evaluated only at the levels that print them, so an index or a side effect inside one shows at that level only.",
    ["src/lib.rs", S + "local_minkowski_diff/v.rs", S + "local_minkowski_diff/mod.rs", D + "extreme_point.rs", S + "tilemap.rs"],
    [("log macros", "src/lib.rs"), ("log statements inside the queries", S)],
    "All laws are decided again on the build with logging, with an arbitrary level at every statement; log arguments are evaluated on the paths that print them, the logger itself is a no-op.",
    analyses=(("laws", logging_laws),),
    note=LAW_NOTE + " The logger and the formatting of arguments by it are replaced by no-ops; the quick tier leaves out the four longest explorations.",
)
prop(
    "C27",
    "Constructors build what they name, and strict_check finds misplaced vertices",
    "Every constructor and builder of shapes, shape unions, colliders and placements yields the value its name and arguments say, setting only what it names: regular polygons have their vertices evenly turned on the circle of the given radius from the right (or the top), a box turned into a polygon has each of its corners once, identity and default values are neutral, and clones are equal to their originals. strict_check of a polygon answers whether every vertex is the support point of its own direction.",
    ["inputs"],
    "all sizes, positions, angles and scales; regular polygons of up to 8, 12 and 33 sides with any radius; strict_check on up to three arbitrary vertices",
    "Tests build shapes with unit sizes and never look at builders that replace one part of a placement, at polygons of other than a few sides, or at strict_check on a polygon that fails it.",
    [S + "poly2d/mod.rs", S + "mod.rs", S + "ball2d/mod.rs", S + "box2d/mod.rs", T + "transform2d.rs", T + "axis_transform2d.rs", T + "translate2d.rs", "src/col2d/collider2d.rs"],
    [("Poly2d::regular, regular_upright, strict_check, From<Box2d>", S + "poly2d/mod.rs"), ("Transform2d::from_* and with_*", T + "transform2d.rs"), ("Shape2d constructors", S + "mod.rs")],
    "The values built are computed from MIR for all arguments at once and compared part by part with what was asked for; sine and cosine of an angle are a point on the unit circle.",
)

PROPS = P
NOT_APPLICABLE = []
