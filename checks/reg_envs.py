from checks.registry import reg

FLOAT = "verdicts within 1e-9 (or the representable face) of a boundary are left open, as rounding may decide them"
STAT = "a uniformity test alarms below p = 1e-10 per test, after which a false alarm is not a practical concern"

reg("C01", "env_motion", "straight",
    rule="random boxes (dim 2-8, assorted clearances and lengths), start/goal pairs with coordinates pushed on, "
         "just inside and just outside each face; a pair is non-trivial when the exact box test pins its verdict",
    technique="every scalar and batch verdict compared online with the exact convex-box test",
    note="observes the public motion check on generated motions; the oracle is four comparisons in float64",
    assumptions=[FLOAT], require={"valid": 2000, "invalid": 2000})
reg("C02", "env_motion", "narrow",
    rule="free start/goal pairs (dim 2-7) biased to walls, mouths and corners, pairs aimed to graze a corner at "
         "1e-7..1e-1, short and zero-length motions; non-trivial when growing and shrinking the obstacles by 1e-9 "
         "gives one answer",
    technique="verdicts compared online with an independent slab-clipping oracle, alone and in batches",
    note="the oracle clips the segment against each solid box in float64 with a tolerance band",
    assumptions=[FLOAT, "both end points free and inside the outer box, as every caller guarantees"],
    require={"free_motions": 2000, "blocked_motions": 2000, "through_passage": 100, "zero_length": 100})
reg("C03", "env_motion", "graycode",
    rule="motions between generated configurations of corridors (dim 2-4, several lengths and thicknesses), inside one cube, "
         "through openings, against closed faces and posts; non-trivial when the verdict is stable under 1e-9",
    technique="verdicts compared online with an independent model of the corridor",
    note="the oracle rebuilds the corridor from the reflected binary code and walks the segment cube by cube",
    assumptions=[FLOAT], require={"valid_span_3": 100, "invalid": 1000})
reg("C04", "env_state", "corridor",
    rule="every cube of generated corridors, their faces, and points in and around them; non-trivial: all",
    technique="structure and wall distances compared online with an independent model of the corridor",
    note="open/closed status of each face is observed through wall distance, motions, curve and end points",
    assumptions=[FLOAT], require={"open_faces": 200, "closed_faces": 200, "wall_points": 200, "free_points": 200})
reg("C05", "env_state", "free_samples",
    rule="samples drawn from generated environments of all three kinds; each is judged; non-trivial: all",
    technique="each sample checked for membership by an independent oracle and by the environment's own motion check",
    note="covers seeds, dimensions and clearances sampled in the run",
    assumptions=[FLOAT], require={"samples_line": 500, "samples_narrow": 500, "samples_gray": 500, "hallway_samples": 50})
reg("C06", "env_state", "uniform",
    rule="one evaluation is one chi-square test of a sample batch over an equal- or known-measure partition of a "
         "generated environment; non-trivial: all",
    technique="chi-square monitors over recorded sample streams",
    note="detects deviations visible in some thousands of samples per partition",
    assumptions=[STAT, "GrayCodeWalls is judged on the regions it documents (cube interiors and open passages)"],
    require={"tests": 50, "samples": 20000})
reg("C07", "env_state", "volume",
    rule="reported volume of generated environments against exact rational arithmetic and against a seeded Monte Carlo hit "
         "count through the independent membership oracle; non-trivial: all",
    technique="reported value compared online with exact arithmetic",
    note="environments generated in the run", assumptions=[], require={"monte_carlo": 4, "after_use": 20})
reg("C08", "env_state", "curve",
    rule="parameters on a grid, random, at breakpoints and outside [0,1] for generated environments; non-trivial: all distinct",
    technique="recorded curve points checked for shape, end points, speed, clamping and clearance",
    note="oracles: closed forms for the straight curves, the independent corridor model for the gray-code one",
    assumptions=[FLOAT], require={"points_line": 500, "points_narrow": 500, "points_gray": 500})
reg("C09", "env_state", "path_distance",
    rule="batches of query points around, beyond and on the curve of generated environments, in double and single precision and whole numbers; non-trivial: all distinct",
    technique="reported distances compared online with the exact point-to-segment distance of the observed curve",
    note="the segment is the one the environment itself reports as its curve", assumptions=[],
    require={"queries_line": 500, "queries_narrow": 500, "beyond_ends": 300, "other_dtypes": 1000})
reg("C10", "env_state", "reproducible",
    rule="one evaluation is one pair of equally seeded environments, one of which has other public calls interleaved between "
         "its samples; non-trivial: all",
    technique="two recorded sample streams compared element by element; global generators watched for change",
    note="interleavings drawn at random from the read-only public calls", assumptions=[],
    require={"interleavings": 100, "disturbances": 1000, "distant_seeds": 100})
reg("C11", "env_motion", "coherent",
    rule="motions in generated environments asked forwards, backwards, alone, in batches, twice, and in parts; non-trivial: all",
    technique="metamorphic monitor over the recorded verdicts",
    note="parts are cut at points of the motion, with the cut points kept clear of walls", assumptions=[FLOAT],
    require={"sub_motions": 1000, "symmetry_pairs": 1000})
reg("C12", "geometry_utils", "member", crash_is_violation=True,
    rule="points drawn from generated polygons and multipolygons (concave, holes, islands nested three deep in any order, "
         "rings that meet in points and enclose or split gaps, thin, far away); "
         "non-trivial: all distinct",
    technique="each drawn point judged by an exact even-odd oracle on the input rings",
    note="native crashes of the triangulation while sampling a valid polygon are violations",
    assumptions=["polygons are valid, with vertices separated by more than 1e-6 of their size"],
    require={"points_concave": 50, "points_hole": 50, "points_nested": 50, "points_parts": 50, "points_compound": 200, "points_chess": 30,
             "points_split-hole": 30, "points_ring-of-parts": 30, "points_holes-meet": 30})
reg("C13", "geometry_utils", "poly_uniform", crash_is_violation=True,
    rule="one evaluation is one chi-square test of points from one polygon over cells of known area; non-trivial: all",
    technique="chi-square monitors over recorded point streams",
    note="cell areas by exact clipping with shapely", assumptions=[STAT], require={"tests": 50, "points": 50000})
reg("C14", "geometry_utils", "intersect",
    rule="batches of segment pairs in general, touching, collinear, degenerate and nearly parallel position, and missing or meeting by 2^-3 to 2^-40; a pair is "
         "non-trivial when exact arithmetic separates it from the boundary by more than rounding, or its coordinates are "
         "small dyadic rationals so that floating point is exact",
    technique="verdicts compared online with exact rational arithmetic",
    note="also compares batched, broadcast and single calls and both orders of arguments", assumptions=[],
    require={"apart": 2000, "crossing": 2000, "mode_5": 1000})
