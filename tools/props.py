"""The semantic properties of nonasymptotic-mp (source of properties.jsonl)."""
PROPS, NOT_BUILT = [], {}
ENV, PRM, BND, ANN = "nonasymptotic/envs.py", "nonasymptotic/prm.py", "nonasymptotic/bound.py", "nonasymptotic/ann.py"


def P(id, title, statement, over, text, tests, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a})


# ------------------------------------------------------------------------------ environments
P("C01", "Straight-line box: motion verdict is exact",
  "In a StraightLine environment a motion is reported valid if and only if both its end points lie in the box "
  "[-delta, length+delta] x [-delta, delta]^(dim-1) (faces included). The verdict is the same whether the motion is asked "
  "alone or as a row of a batch, for every dimension, clearance and length.",
  ["inputs", "configurations"], "all dimensions, clearances, lengths and start/goal pairs, alone and in batches of any size",
  "no test asks this environment for a motion verdict; any verdict would be sampled at a few points",
  [ENV], [("convexity of the box", ENV + ": StraightLine.is_motion_valid")])
P("C02", "Narrow passage: motion verdict is exact",
  "Between two free configurations of a NarrowPassage environment a motion is reported valid if and only if the whole straight "
  "segment stays out of the blocks that narrow the passage, in every dimension; this includes motions of zero length, which are "
  "valid wherever the configuration is free. Each row of a batch gets the verdict it would get alone.",
  ["inputs", "configurations"], "all dimensions, clearances and pairs of free configurations, alone and in batches",
  "the tests cover a handful of planar motions; grazing corners, higher dimensions and degenerate motions are not reached",
  [ENV, "nonasymptotic/util.py"], [("projection on (first axis, axis i) planes", ENV + ": NarrowPassage.is_motion_valid"),
                                   ("segment intersection", "nonasymptotic/util.py: detect_intersect")])
P("C03", "Gray-code corridor: motion verdict is exact",
  "In a GrayCodeWalls environment a motion between two configurations inside the corridor is reported valid if and only if the "
  "whole straight segment stays in the free space: inside each cube at distance at least the wall thickness from its closed "
  "faces, and passing from a cube to the next only through the open face they share. A motion that starts or ends in a wall is "
  "reported invalid.",
  ["inputs", "configurations"], "all dimensions, lengths, thicknesses and segments spanning any number of cubes, in both directions",
  "the tests try chosen segments in two small corridors; motions over several cubes and towards non-adjacent cubes are hardly reached",
  [ENV], [("walk from cube to cube through openings", ENV + ": GrayCodeWalls.is_motion_valid")])
P("C04", "Gray-code corridor: cubes, openings and wall distance",
  "The corridor visits every unit cube of the length x 2^(dim-1) grid exactly once, from the all-zero cube on, consecutive cubes "
  "sharing a face, and exactly those shared faces are open. The wall distance of a point is its distance, measured along the "
  "axes, to the closest closed face of its cube minus the thickness, so it is negative exactly inside the walls.",
  ["configurations", "inputs"], "all dimensions, lengths and thicknesses; all cubes; all points of the grid",
  "the tests check a few points in two corridors",
  [ENV], [("reflected binary code path", ENV + ": GrayCodeWalls.__init__"), ("wall distance", ENV + ": GrayCodeWalls.distance_to_wall")])
P("C05", "Every sampled configuration is free",
  "Every configuration drawn from an environment lies in its free space (within the box; in a room or the passage; in a cube "
  "interior or open passage of the corridor), has the environment's dimension, and is accepted by the environment's own motion "
  "check as a motion to itself.",
  ["inputs", "configurations"], "all environments, parameters, seeds and sample counts",
  "tests draw one seed and look at a few thousand samples of one or two configurations",
  [ENV], [("region choice and uniform draw", ENV + ": sample_from_env of each environment")])
P("C06", "Samples are uniform over the free space",
  "Configurations drawn from an environment are distributed uniformly over its free space with respect to Lebesgue measure "
  "(for the gray-code corridor: over the cube interiors and the open passages between them), and successive draws are independent.",
  ["inputs", "configurations", "histories"], "all environments, parameters and seeds; any region of the free space",
  "tests compare a coarse frequency or two; the finite-sample bounds rest on uniformity everywhere",
  [ENV], [("region weights", ENV + ": NarrowPassage.__init__, GrayCodeWalls.__init__"), ("uniform draw", ENV + ": sample_from_env")])
P("C07", "Reported volume is the measure of the free space",
  "The volume an environment reports equals the Lebesgue measure of its free space, for every dimension, clearance and length, and "
  "does not change as the environment is used.",
  ["configurations", "histories"], "all dimensions, clearances and lengths (straight line and narrow passage)",
  "no test asks for the volume; the sample bounds take it as an input",
  [ENV], [("volume", ENV + ": StraightLine.volume, NarrowPassage.volume")])
P("C08", "Reference curve: shape, speed, end points, clearance",
  "The reference curve of an environment maps [0,1] at constant speed onto the documented path (the segment along the first axis; "
  "the segment through the passage; the centre line of the corridor through every opening from first to last cube), starts and "
  "ends at its end points, clamps parameters outside [0,1], and returns points of the environment's dimension. Every point of it "
  "keeps the environment's clearance from obstacles.",
  ["inputs", "configurations"], "all parameters, dimensions, lengths and clearances",
  "tests evaluate chosen parameters of two corridors, and no curve of the other environments",
  [ENV], [("curve", ENV + ": arclength_to_curve_point of each environment")])
P("C09", "Distance to path is the distance to the reference curve",
  "The distance an environment reports from a query point to its path is the Euclidean distance from the point to its reference "
  "curve, for every point of a batch, including points beyond the ends of the curve.",
  ["inputs", "configurations"], "all query points, dimensions and lengths (straight line and narrow passage)",
  "no test asks for it; experiment-mode roadmaps select the vertices near the path with it",
  [ENV], [("projection on the path", ENV + ": distance_to_path")])
P("C10", "Equal seeds give equal sample sequences",
  "Two environments built with the same parameters and the same seed produce the same sequence of samples, whatever motion checks, "
  "distance, volume or curve queries are made in between and whatever other environments do, and sampling neither reads nor "
  "advances any global random state. The polygon sampler given a generator behaves in the same way.",
  ["histories", "schedules"], "all seeds, and all interleavings of sampling with other public calls and other instances",
  "tests seed environments but never interleave or compare streams",
  [ENV, "nonasymptotic/sampler.py"], [("own generator", ENV + ": Environment.__init__")])
P("C11", "Motion verdicts are symmetric, local and pure",
  "Swapping start and goal does not change a motion verdict; every part of a valid motion is valid; and a verdict depends "
  "only on the motion, not on other rows of the batch, earlier calls or sampling, and leaves its inputs unchanged.",
  ["inputs", "histories"], "all environments, motions, cut points, batches and call histories",
  "tests never relate two verdicts to each other",
  [ENV], [("motion checks", ENV + ": is_motion_valid of each environment")])
P("C12", "Polygon sampler: points lie in the polygon",
  "A point drawn from a polygon or multipolygon lies inside it or on its boundary: never in a hole, never outside, wherever the "
  "polygon is in the plane, with any number of parts, holes and islands nested in holes, also where rings meet in single points.",
  ["inputs"], "all valid polygons and multipolygons, and all generators",
  "two recorded polygons are sampled by the tests",
  ["nonasymptotic/sampler.py"], [("constrained triangulation with hole markers", "nonasymptotic/sampler.py: random_point_in_mpolygon")])
P("C13", "Polygon sampler: uniform by area",
  "Points drawn from a polygon or multipolygon are distributed uniformly over its area: the probability of any sub-region is its share "
  "of the area, across triangles, parts and around holes.",
  ["inputs"], "all valid polygons, sub-regions and generators",
  "a test compares one shape; errors of weighting or orientation show on others",
  ["nonasymptotic/sampler.py"], [("area-weighted triangle choice, folded unit square", "nonasymptotic/sampler.py: random_point_in_mpolygon")])
P("C14", "Segment intersection is exact",
  "Two closed segments are reported as intersecting if and only if they share a point, including touching, collinear, "
  "overlapping, disjoint-collinear and zero-length segments. Rows of a batch, or one segment against many, are judged independently.",
  ["inputs"], "all pairs of planar segments, in batches of any broadcastable shape, and both argument orders",
  "tests use random general-position segments and four parallel cases",
  ["nonasymptotic/util.py"], [("cross-product test", "nonasymptotic/util.py: detect_intersect")])

# ------------------------------------------------------------------------------ bounds
P("C15", "Sample bound: sufficient, least, and always found",
  "The number of samples reported for a clearance, success probability, volume, dimension and stretch is the least integer of at least 2 from "
  "which on the Sauer-Shelah failure bound 2*sum_{i<=dim+1} C(2m,i) * 2^(-rho*m/2) is at most the allowed failure probability "
  "and no longer increasing. The search ends for every admissible input, counts beyond 2^53 included, and a "
  "success probability not strictly between 0 and 1 is refused with an arithmetic error.",
  ["inputs"], "all clearances, probabilities, volumes, dimensions and stretch factors, tol None included",
  "no test touches the bound; rounding shows only at particular and at very large counts",
  [BND], [("doubling and binary search", BND + ": doubling_sample_search_over_log2_prob_bound"),
          ("exact combinatorial sum", BND + ": compute_ss_comb_sum"), ("bound", BND + ": compute_sauer_shelah_bound_log2, compute_numerical_bound")])
P("C16", "Sample bound: monotone in every argument",
  "The reported number of samples never decreases when the success probability or the volume grows, the clearance "
  "shrinks, or the stretch factor shrinks, and asking for existence only (no stretch factor) never needs more samples than any "
  "stretch factor. Scaling clearance and environment together leaves the number of samples unchanged.",
  ["inputs"], "all pairs of admissible inputs that differ in one argument",
  "relational over pairs of inputs; never tested",
  [BND], [("ball measure", BND + ": compute_rho"), ("bound", BND + ": compute_numerical_bound")])
P("C17", "Radii and ball volumes follow their definitions",
  "Net radius is clearance*tol/sqrt(1+tol^2) (clearance itself when no stretch factor is given), the connection radius is "
  "2*(alpha+sqrt(1-alpha^2))*clearance for that alpha from every entry point that reports one, the unit ball volume is the exact Euclidean "
  "one, and the normalised ball measure is ball volume times net radius to the dimension over environment volume. These hold for "
  "every dimension and scale linearly with clearance.",
  ["inputs"], "all clearances, stretch factors, dimensions and volumes",
  "never tested; errors in odd dimensions or in one of two entry points go unnoticed",
  [BND], [("formulas", BND + ": compute_vol_unit_sphere, compute_epsilon_net_radius, compute_rho, compute_connection_radius, compute_numerical_bound")])
P("C18", "Tail bounds never understate the failure probability",
  "Each reported log tail probability for an effective connection radius (Hoeffding in both statements, generic Chernoff, "
  "Kullback-Leibler Chernoff) is at least the log of the exact failure probability it bounds: the chance, summed over the m vertices, that at "
  "least k of the m-1 other uniform samples fall within the radius. None is looser than the inequality it is named after.",
  ["inputs"], "all sample counts, neighbour counts, radii, dimensions and volumes in the range where each bound is stated",
  "never tested; an unsound constant still yields plausible curves",
  [BND], [("tail bounds", BND + ": compute_tail_knn_radius_log_prob_*")])
P("C19", "Radius search returns a certified, nearly largest radius",
  "For a log-probability bound that decreases strictly as the radius shrinks (by more than rounding), the search over an interval ends and returns a radius whose "
  "bound is within the allowed failure probability and is within the tolerance of the largest such radius in the interval (the lower end when there is none). With each of the repository's own tail bounds, the exact failure probability at the returned radius is within the allowed one whenever the lower end's bound is.",
  ["inputs"], "all monotone bounds, intervals, success probabilities and tolerances",
  "never tested; off-by-one-interval errors show on few inputs",
  [BND], [("halving search", BND + ": halving_radius_search_over_log_prob_bound")])
P("C20", "Closed-form effective connection radius is sound",
  "The closed-form effective connection radius for m samples and k neighbours never exceeds the radius at which the expected number of "
  "samples in a ball plus the stated deviation reaches k: the union-bounded Chernoff failure probability at the returned radius is at most the allowed "
  "one, whenever a radius is returned, and it equals the stated expression. Where the expression is not positive, nothing is certified and no positive radius is returned.",
  ["inputs"], "all sample counts, neighbour counts, dimensions, volumes and failure probabilities",
  "never tested",
  [BND], [("closed form", BND + ": compute_eff_conn_rad_bound")])
P("C21", "Net radius for n samples inverts the sample bound",
  "The net radius reported for n samples and a failure probability is the one at which the sample bound's failure expression equals that "
  "probability, so that n samples suffice for it, and it shrinks as n grows.",
  ["inputs"], "all dimensions, sample counts, failure probabilities and volumes",
  "never tested; the two formulas are written independently",
  [BND], [("inverse", BND + ": compute_net_radius_from_prob")])
P("C22", "Blumer bound is the stated, sufficient count",
  "The Blumer bound for a net radius equals max(4/p*log2(2/gamma), 8*(dim+1)/p*log2(13/p)) for the normalised ball measure p, "
  "never increases with gamma or the radius, and never decreases with the volume.",
  ["inputs"], "all radii, dimensions, failure probabilities and volumes",
  "never tested", [BND], [("formula", BND + ": compute_blumer_bound")])

# ------------------------------------------------------------------------------ roadmaps
RM = "radius, full-connection and nearest-neighbour roadmaps"
P("C23", "Roadmap edges are real, valid motions",
  "Every edge of a roadmap joins two different sampled configurations, is weighted with their Euclidean distance (to the precision of the neighbour "
  "index), is no longer than the connection radius in force, and is a motion the validity checker accepts.",
  ["inputs", "histories"], "all environments, seeds, sizes, radii and neighbour counts; after construction, growth and restriction, for " + RM,
  "no test can build a roadmap without the graph library; the one experiment test looks at two flags",
  [PRM], [("edge filter", PRM + ": _nn_edge_list_and_dist_list_to_nk_prm_graph, SimpleFullConnRadiusPRM.grow_to_n_samples")])
P("C24", "Roadmap contains every promised connection",
  "The full-connection roadmap contains every pair of samples within its radius whose motion is valid; a nearest-neighbour roadmap contains "
  "every valid motion from a sample to each of its k nearest, hence every valid pair within its certified radius; and a "
  "doubling radius roadmap contains every valid pair within its radius unless its neighbour cap stopped it.",
  ["inputs", "histories"], "all environments, seeds, sizes, radii and neighbour counts; after construction and after growth",
  "completeness is a statement about absent edges; no test builds a roadmap",
  [PRM, ANN], [("all-pairs enumeration", PRM + ": SimpleFullConnRadiusPRM.grow_to_n_samples"),
               ("certified radius", PRM + ": SimpleNearestNeighborRadiusPRM.grow_to_n_samples"),
               ("neighbour doubling", PRM + ": SimpleRadiusPRM.grow_to_n_samples")])
P("C25", "Queries return a shortest valid path or infinity",
  "A query returns the length of a shortest path from start to goal through the roadmap, where start and goal connect to every sample within the "
  "connection radius by a valid motion, together with the samples of such a path in order from start to goal. If there is no such path it returns an "
  "empty path and a distance that no real path has.",
  ["inputs", "histories"], "all roadmaps, starts, goals, radii and numbers of earlier queries",
  "tests only look at whether a path exists",
  [PRM], [("temporary start and goal vertices", PRM + ": query_best_solution"), ("neighbour lookup", PRM + ": _query_samples")])
P("C26", "Queries leave the roadmap as it was",
  "After any number of queries the roadmap has the same vertices, edges and samples as before, equal queries get equal answers, and growing or "
  "restricting it afterwards gives what it would have given without them.",
  ["histories"], "all interleavings of queries with growth and restriction",
  "needs histories; the tests query each roadmap in one fixed pattern",
  [PRM], [("removal of start and goal", PRM + ": query_best_solution"), ("merge of new vertices", PRM + ": SimpleRadiusPRM.grow_to_n_samples")])
P("C27", "Radius and neighbour settings do not depend on history",
  "After any sequence of connection-radius and neighbour-count settings the roadmap has exactly the edges it would have if the last settings had been the "
  "first: the edges shorter than the radius in force of which one end lists the other among the k nearest in force. Asking for more neighbours than the roadmap was created with is refused.",
  ["histories"], "all sequences of settings, shrinking and growing, between growths",
  "needs histories; never tested",
  [PRM], [("reload and filter", PRM + ": set_connection_radius, set_nearest_neighbors")])
P("C28", "Growing keeps the samples and never shrinks",
  "Growing a roadmap to n samples keeps every earlier sample unchanged and in place, adds fresh ones from the sampler in order until there are exactly n, and a request to "
  "shrink is refused without changing anything; a reset roadmap starts afresh. Growing in steps draws the same samples as growing at once.",
  ["histories"], "all schedules of growth, queries, restriction and reset",
  "needs histories; the experiment test checks one consequence for one kind of roadmap",
  [PRM], [("sample concatenation", PRM + ": grow_to_n_samples of each roadmap")])
P("C29", "Connections between query points report true graph distances",
  "Listing all connections of a start and a goal returns exactly the pairs of samples they can connect to, the coordinates of both, and the shortest "
  "graph distance between them for every pair; a roadmap that cannot compute these distances refuses instead of returning something else.",
  ["inputs", "histories"], "all roadmaps in experiment mode, starts, goals, and radius changes in between",
  "never tested",
  [PRM], [("all-pairs lookup", PRM + ": query_all_graph_connections, _compute_spsp, _distance_in_graph")])
P("C30", "Roadmaps do not interfere and leave no files behind",
  "Several roadmaps alive at once, in one process or several, never see each other's temporary files, and once a roadmap has been reset or an experiment trial has "
  "ended no temporary file of its own remains.",
  ["schedules", "histories"], "all interleavings of building, restricting, querying and resetting several roadmaps",
  "tests never look at the temporary directory or use two roadmaps",
  [PRM, ANN], [("unique cache names", PRM + ": tmp_graph_cache_path"), ("text dump", ANN + ": KGraphANN.new_graph_from_data")])
P("C31", "Neighbour index returns true neighbours and distances",
  "For n points and k neighbours the index returns n rows of k neighbour numbers with their Euclidean distances in ascending order, every distance being that of the named point, and "
  "adding points later gives the same answer as building from all points at once. An unknown index name is refused.",
  ["inputs", "histories"], "all point sets, dimensions (padded ones included), neighbour counts and sequences of updates, for both index libraries",
  "needs the index libraries; never tested",
  [ANN], [("text parsing and scaling", ANN + ": KGraphANN"), ("update", ANN + ": update_graph_with_data")])
P("C32", "A saved roadmap reloads as the same roadmap",
  "Saving a roadmap writes a graph and a sample file from which exactly its vertices, edges, weights and samples are read back, whatever was done to it before, and does not "
  "change it; saving an empty roadmap is refused.",
  ["histories"], "all roadmaps and histories before the save",
  "never tested", [PRM], [("save", PRM + ": SimplePRM.save")])

# ------------------------------------------------------------------------------ experiments
EX = "exps/run_knn_radius_trial.py, exps/run_narrow_passage_clearance_trial.py, exps/run_straight_line_optimality_trial.py"
EXF = EX.split(", ")
P("C33", "Experiment tasks are partitioned exactly once",
  "For every number of processes the experiment scripts together run every configured combination and trial exactly once: no combination is left out and none is run "
  "by two processes, no two trials use the same seed, and each process writes only its own result file.",
  ["configurations"], "all configurations, process counts and process ids, fewer or more processes than combinations",
  "the scripts are never run by the tests", EXF, [("strided task list", EX)])
P("C34", "A resumed experiment ends like an uninterrupted one",
  "If an experiment process is stopped at any moment and started again with the same arguments, as often as it takes, its final result file holds the same trials and deterministic "
  "values as an uninterrupted run: no trial lost, repeated, mixed up or run with another seed, and no stop leaves a file that cannot be resumed.",
  ["crash_points", "histories"], "all crash points: between trials, within trials, and while the result file is being written",
  "needs crashes; the scripts are never run by the tests", EXF, [("skip ahead, generator, result file", EX)])
P("C35", "Narrow-passage records are true",
  "Each record of a narrow-passage trial is truthful for the query from (-1,0,...)-(1/2-clearance)(1,...,1) to its mirror image: its upper connection setting and path distance belong to a query that succeeded on the roadmap of that many samples, its lower setting, the next smaller one, to one that failed, "
  "no path is reported missing that the largest setting would find, and every size of the schedule has one complete record.",
  ["inputs", "configurations"], "all dimensions, clearances, seeds, schedules, and both kinds of roadmap",
  "the one test compares the success flags of two sizes and needs libraries that are absent",
  [EXF[1]], [("bisection over connection settings", EXF[1] + ": narrow_passage_clearance")])
P("C36", "Nearest-neighbour radius records are true",
  "Each record of a neighbour-radius trial gives, for the recorded dimension, clearance, seed, sample count and neighbour count, the smallest distance of any sample to its "
  "neighbour of that rank among that many uniform samples of the straight-line environment with that clearance and seed; every size and admissible neighbour count has one record.",
  ["inputs", "configurations"], "all dimensions, clearances, seeds and schedules",
  "never tested", [EXF[0]], [("trial", EXF[0] + ": knn_radius_trial")])
P("C37", "Submission, resumption and aggregation keep experiments intact",
  "Submitting an experiment stores its configuration unchanged but for name and triples and submits a script that runs the requested kind on them; resuming resubmits the latest run of that name with its own triples and changes no "
  "result; aggregation writes one table holding every row of every result file of the latest run exactly once and tells mean and deviation of the build and check times without each process's first row; tuning submits every triple of its range within 48 threads once, each under its own name.",
  ["configurations", "histories"], "all kinds, names, configurations, triples, and sets of earlier runs and result files",
  "never tested", ["exps/submit_and_run_experiment_job.py", "exps/aggregate_runtimes_for_tuning.py", "exps/tune_experiment_triples.py"],
  [("experiment directory", "exps/submit_and_run_experiment_job.py"), ("concatenation", "exps/aggregate_runtimes_for_tuning.py")])

# ------------------------------------------------------------------------------ TAMP
T, K = "exps/tamp_environment/turtlebot_move/", "exps/tamp_environment/kuka_carry/"
P("C38", "Planar separating-axis test is exact",
  "Two convex polygons are reported as colliding if and only if they share a point, by both the scalar and the batched test, for any numbers of vertices and either orientation, and "
  "each row of a batch is judged by itself.",
  ["inputs"], "all pairs of convex polygons, vertex counts, orientations and batch sizes",
  "never tested", [T + "separating_axis.py"], [("separating axes of both polygons", T + "separating_axis.py: separating_axis_theorem, vec_separating_axis_theorem")])
P("C39", "Oriented-box collision test is exact",
  "Two oriented boxes in space are reported as colliding if and only if they share a point, for all centres, half extents and rotations, in batches row by row, and "
  "symmetrically in the two boxes.",
  ["inputs"], "all pairs of oriented boxes, with equal and unequal extents, parallel and skew axes",
  "never tested; the file's own examples use cubes",
  [K + "separating_axis.py"], [("fifteen axes", K + "separating_axis.py: separating_axis_theorem, compute_vertices_vectorized")])
P("C40", "Planar TAMP motions: verdict is sound and complete to resolution",
  "In the planar task-and-motion environment a motion is reported invalid if the robot's footprint collides at its start or goal, or along any stretch of the motion longer than the checking step, and is "
  "reported valid if the swept footprint touches no obstacle; rows of a batch never cause each other's rejection. Samples are uniform in the bounding box of the obstacles.",
  ["inputs", "configurations"], "all robot boxes, obstacle sets, motions and batches",
  "needs the physics tools; never tested", [T + "streams.py"], [("interpolated placements", T + "streams.py: BagOfBoundingBoxes")])
P("C41", "Spatial TAMP motions: verdict is sound and complete to resolution",
  "In the insertion environment a motion is reported invalid if the carried box collides at its start or goal, or along any stretch longer than the checking step, and is reported valid if "
  "no placement along it touches an obstacle; rows of a batch never cause each other's rejection. Samples are uniform in the box spanned by the obstacles and the start position, and in the angular margin.",
  ["inputs", "configurations"], "all carried boxes, obstacle sets, motions, rotations and batches",
  "needs the physics tools; never tested", [K + "run.py"], [("interpolated poses", K + "run.py: BagOfBoundingBoxes")])
P("C42", "Trajectory interpolation keeps the path and bounds the step",
  "Interpolating a path keeps every waypoint in order, adds only points on the segments between consecutive waypoints, in order, and leaves no step longer than the threshold.",
  ["inputs"], "all paths, dimensions and thresholds, repeated waypoints and single points included",
  "never tested", [T + "streams.py"], [("interpolation", T + "streams.py: interpolate_vectors")])
P("C43", "Motion streams return collision-free plans within their budget",
  "A motion stream returns a trajectory from the start to the goal configuration whose every motion is valid for the shape that moves (the held object if there is one), or reports failure only after a roadmap of the full sample budget found no path; "
  "it ends, and never plans with more samples than the budget. In adaptive mode the budget is the sample bound (success 0.99) for the measured clearance: planar, the gap less the footprint's width and the buffer, in volume 16 and dimension 2; insertion, the wall distance less half the width and the buffer, in the sampling box and dimension 6. The insertion stream returns a trajectory only if the arm reached every way point of the checked path.",
  ["inputs", "configurations"], "all problems, budgets, growth factors, adaptive or not, holding or not",
  "needs planner and physics tools; never tested",
  [T + "streams.py", K + "run.py"], [("anytime loop", T + "streams.py: get_anytime_motion_fn"), ("insertion stream", K + "run.py: get_insert_motion_gen")])
P("C44", "Plans become faithful commands",
  "Post-processing a plan keeps every motion in plan order, with each attachment after the motion that reaches the object and its release after the motion that carries it, and refuses an action it does not know. A command "
  "executed reaches every configuration of its paths in order with the held objects carried along; its reverse runs the parts backwards, each path backwards and attaching and detaching exchanged, and reversed twice is the command itself; "
  "a refined command keeps every way point after the first of each path, in order, and only adds configurations between consecutive ones. The bodies that move with a path are exactly its body and what it holds.",
  ["histories", "inputs"], "all plans over the actions of the domains, all commands of any number of paths and grips",
  "no test imports these modules (they need a physics engine)", [T + "run.py", K + "kuka_primitives.py", K + "run.py"],
  [("post-processing", T + "run.py: post_process; " + K + "run.py: postprocess_plan"), ("commands", K + "kuka_primitives.py: Command, BodyPath, Attach, Detach")])
P("C45", "Container walls are modelled as they are built",
  "The obstacle boxes reported for a hollow container are exactly its walls: for each requested side one box of the given thickness, flush with the outer dimensions, equal to the geometry that is built, and none for an open side; "
  "also where the world places the container.",
  ["inputs", "configurations"], "all dimensions, thicknesses and sides, wherever the container is put",
  "no test imports this module", [K + "run.py"], [("walls", K + "run.py: create_hollow_shapes, create_hollow, load_world")])
P("C46", "Manipulation primitives respect the world",
  "Placements rest on the surface within its extent and collide with no fixed body: from a fixed list of candidates exactly the free ones are offered, free ones are drawn in every direction; a rover's placement keeps the minimum distance to every obstacle, and no placement is "
  "reported if none fits. Grasps hold the object from the top centre, in four directions, approached from above. Inverse kinematics returns configurations that put the tool at the approach of the grasp, free of collision, and None only "
  "after all allowed attempts failed. Free and holding motions are planned from the first to the second configuration among all fixed bodies and the objects where the planner's state puts them, with the held object attached. The test of a "
  "movable object is true iff some body moving with the command meets the object on its way. Captured poses and configurations restore what they captured, and the inverse of a transform undoes it.",
  ["inputs", "configurations", "histories"], "all objects, surfaces, obstacles, grasps, planner states and commands",
  "no test imports these modules (they need a physics engine)", [K + "kuka_primitives.py", K + "run.py", T + "streams.py", T + "utils.py"],
  [("primitives", K + "kuka_primitives.py"), ("rover placements", T + "streams.py"), ("movable-object test", K + "run.py: get_movable_collision_test")])
P("C47", "Benchmark worlds are as specified",
  "Every generated world has the stated geometry: the corridor between the rooms is exactly the stated gap wide along its whole length, rooms are closed but for it, every start, goal and object lies free of collision in its room, and what "
  "has to go through the corridor fits with exactly the stated clearance. The insertion world has its bins at the stated size (the largest object plus the gap), each with a bottom to stand on and walls of the stated height, objects within reach of the arm and on the "
  "stove, and lists, names and fixed bodies consistent with what was built.",
  ["inputs", "configurations"], "all robot scales, gaps, clearances, numbers of objects and random seeds",
  "no test builds a world (needs a physics engine)", [T + "problems.py", K + "run.py"], [("worlds", T + "problems.py; " + K + "run.py: load_world")])
P("C48", "Planning problems state the world truthfully",
  "What the task planner is told is true of the world and complete: one current pose per object and one configuration of the robot, the hand empty, a goal for every object, every surface and bin; every claim that an object is supported or "
  "that the arm holds it somewhere checks out in the world, free of collision. In the insertion problem each object gets a bin of its own, with configurations above and in it, and its insertion is planned against the walls of that bin. "
  "Every stream of the stream file is there with its inputs and outputs and plans within the given sample budget for the shape that moves. No problem is posed if the arm cannot reach what it has to.",
  ["inputs", "configurations"], "all worlds, sample schedules and options",
  "no test poses a problem (needs a physics engine and the planner)", [T + "run.py", K + "run.py"],
  [("problem", T + "run.py: pddlstream_from_problem; " + K + "run.py: pddlstream_from_problem")])
P("C49", "Planning domains admit only physically possible plans",
  "Along every action sequence the domain files allow, the robot is at exactly one configuration, at most one object is held and the hand is empty iff none is, every object is held or at exactly one pose, motions start where the robot is and "
  "were planned for what it carries (and, for the arm, for where the objects are), objects are picked and placed only where the robot reaches them, and cleaned or cooked only on the right surface; the intended pick, carry, insert course is among the allowed ones.",
  ["histories"], "all action sequences over the two domains with any number of objects, poses and configurations",
  "the domain files are data no test reads", [T + "domain.pddl", T + "stream.pddl", K + "domain.pddl", K + "stream.pddl"],
  [("actions", T + "domain.pddl; " + K + "domain.pddl")])
P("C50", "Robot experiments run as asked and end as reported",
  "A run of a robot experiment uses the arguments it is given: the world has the stated gap and number of objects, the motion streams plan from the minimum to the maximum number of samples growing by the stated factor (or with the "
  "adaptive bound), the same seed gives the same world and another seed another one. It writes one folder with a log that holds the arguments, all output, whether the problem was solved, and the time it took; a motion stream without a path ends it as not "
  "solved. A plan found is carried out from the world as it was generated, without passing through a wall, and leaves every object at its goal or in its bin and, for the arm, the arm where it began. A world the arm cannot work in is "
  "given up and nothing of it is left.",
  ["inputs", "configurations", "histories"], "all command lines and seeds, all plans the domains allow, planners that fail, worlds out of reach",
  "no test runs these programs (they need a physics engine and the planner)", [T + "run.py", K + "run.py"], [("main", T + "run.py: main; " + K + "run.py: main")])
D = "exps/tamp_environment/"
P("C51", "Deployment submits every experiment and spares the queue",
  "The deployment scripts submit every set of arguments exactly as often as planned, only after looking at the queue and only while it leaves room, so that the queue never holds more than the stated maximum; they wait as long as it does not, "
  "submit no further batch once the lock file is gone, and cancel jobs only if all of them are held. A task of a submitted array runs exactly one experiment, with the task's number as seed and the arguments handed on, which the experiment accepts; tasks outside "
  "the range run nothing. The job monitor tells the last line of every output file.",
  ["histories", "inputs"], "all courses of the queue, failing queue commands, all array tasks",
  "no test runs these scripts (they need a cluster)", [D + "deploy_tamp_experiments.py", D + "deploy_tamp_experiments_kuka.py", D + "deploy_tamp_adaptive_kuka.py", D + "deploy_experiments.sh", D + "deploy_experiments_kuka.sh",
  D + "deploy_experiments_kuka_adaptive.sh", D + "monitor_jobs.sh"],
  [("queue limits", D + "deploy_tamp_experiments.py; " + D + "deploy_tamp_experiments_kuka.py"), ("array tasks", D + "deploy_experiments.sh")])
P("C52", "Evaluation shows what the robot runs did",
  "The evaluation programs and notebooks accept any folder of logs that runs of the robot experiments have written, unfinished runs and other files included, and show each ended run exactly once under its own setting: share of solved runs and "
  "mean time per setting with their standard errors, settings told apart by fixed, growing and adaptive sample counts; every gap and sample count of a run that found a motion, beside the sample bound over the gap.",
  ["inputs", "histories"], "all sets of runs, settings and outcomes, broken runs, stray files",
  "never tested; reads the logs of programs that are not tested either", [T + "time_success_plot.py", T + "bound_plot.py", T + "time_success_scatter.ipynb", K + "time_success_scatter.ipynb", K + "time_success_scatter_adaptive.ipynb"],
  [("reading logs", T + "time_success_plot.py; " + T + "bound_plot.py"), ("log lines", T + "run.py; " + K + "run.py")])
P("C53", "Animations show the roadmap and the search as they are",
  "The animation of a roadmap shows each sample once, then each of its edges exactly once and nothing else, then the solution's segments in order and told apart from the edges, or marks everything as failed if there is none, all within the view and "
  "for any batch sizes; it leaves the roadmap alone. A motion stream asked to animate writes one playable file per plan and plans as it would without.",
  ["inputs", "histories"], "all planar roadmaps with neighbour counts, solutions, batch sizes",
  "never tested", ["nonasymptotic/prm.py", T + "streams.py"], [("frames", "nonasymptotic/prm.py: animate_knn_prm"), ("recording", T + "streams.py: get_anytime_motion_fn")])
P("C54", "Straight-line records are true",
  "Each record of a straight-line trial brackets, for its dimension, clearance, seed and sample count, the radius at which the roadmap becomes complete according to the environment's verdicts: its upper radius is the smallest one judged complete (the "
  "certified radius if none was), its lower radius the largest judged incomplete, the two are adjacent among the neighbour distances, every verdict was asked for the tolerance of its radius with the configured settings, and the timeouts noted are those that occurred.",
  ["inputs", "configurations"], "all dimensions, clearances, seeds, schedules, neighbour limits and verdicts",
  "never tested", [EXF[2]], [("bisection over radii", EXF[2] + ": straight_line_trial")])
