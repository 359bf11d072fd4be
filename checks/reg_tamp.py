from checks.registry import reg

A = ["pybullet, pybullet_tools and pddlstream are absent here and replaced by a kinematic world of boxes and cylinders (standins/bullet)"]
B = dict(standins=["bullet"], assumptions=A)
reg("C38", "tamp_geom", "planar", "random convex polygons with 3 to 9 corners, both orientations, thin ones, corners on sides, scales 1e-9 to 1e6, most pairs brought within 1e-5 to 1e-2 of contact, "
    "integer rectangles that touch exactly; batches of 1 to 12; non-trivial: all distinct", "verdicts of the scalar and the batched test compared with an independent geometry library, both argument orders",
    note="pairs closer to contact than rounding are skipped, but for exact integer contacts", require={"colliding": 1000, "apart": 1000, "rows_judged": 3000, "unequal_counts": 1000, "mixed_batches": 100, "exact_touch": 20, "integer_pairs": 100}, **B)
reg("C39", "tamp_geom", "spatial", "random boxes (cubes, plates, needles; parallel, permuted, turned about one axis or freely), most pairs brought within 1e-5 to 3e-2 of contact, nested ones; batches of 1 to 120; non-trivial: all distinct",
    "verdicts compared with an independent test, itself compared with linear programming on a sample", note="pairs closer to contact than rounding are skipped",
    interp="vt", require=dict({"colliding": 10000, "apart": 10000, "deep_inside": 500, "oracle_cross_checked": 100, "converted": 100}, **{"only_axis_%d" % k: 20 for k in range(15)}), **B)
M = dict(standins=["bullet", "sci", "graph", "pynn", "kg", "frames"], assumptions=A + ["the planner's libraries (networkit, pynndescent, kgraph, the planar hull of scipy) are stand-ins, too"])
reg("C40", "tamp_motion", "planar_motions", "random footprints and up to five boxes, turned or not; random motions, motions that clip a corner by little more than the checking step, motions that end just inside, motions of no length; batches of 0 to 12; non-trivial: all distinct",
    "verdict per row compared with the exact stretch of the motion during which the footprint meets an obstacle", note="stretches shorter than the step are left open",
    require={"rows_free": 1000, "rows_hit": 1000, "hits_clip": 300, "hits_end": 300, "free_beside_hit": 500, "empty_batches": 10, "samples_judged": 2000}, **M)
reg("C41", "tamp_motion", "spatial_motions", "random carried boxes, bins and up to four boxes turned freely; random motions and turns, grazing ones, ones that end just inside, ones of no length; batches of 0 to 9; non-trivial: all distinct",
    "verdict per row compared with an independent box test along ten times finer poses with a certified margin between them", note="stretches shorter than the step are left open",
    require={"rows_free": 200, "rows_hit": 500, "hits_graze": 50, "hits_end": 50, "free_beside_hit": 50, "empty_batches": 5, "samples_judged": 2000, "conversions": 100}, **M)
reg("C42", "tamp_motion", "interpolation", "random paths of 1 to 9 waypoints in 1 to 6 dimensions, repeated waypoints, whole multiples of the threshold, lists and arrays; non-trivial: all distinct",
    "output followed point by point along the path", note="", require={"segments_followed": 5000, "points_added": 10000, "exact_multiples": 500}, **M)
reg("C43", "tamp_streams", "streams", "random rooms with doors that fit the rover, the object, both or neither, bins with objects above and in them; budgets from one to twenty thousand roadmap sizes, growth factors from 1; real roadmaps and scripted ones "
    "that find a path from a given size on, adaptive budgets, unreachable waypoints, ends in collision; non-trivial: all distinct",
    "roadmap sizes and answers recorded through the roadmap's public methods, trajectories replayed in the kinematic world and judged by exact geometry; line budget for termination",
    note="half of the shards run the planar stream, half the insertion stream", require={"found": 20, "found_holding": 10, "failures": 30, "adaptive": 10, "plans_real": 20, "motions_judged": 50, "replayed": 100, "lost_refused": 5,
                                                                                       "ends_refused": 10, "placements": 20, "roadmaps_asked": 500}, **M)
reg("C44", "tamp_plans", "plans", "random pick-and-place plans of up to three rovers, random arm plans over the actions of the domain file with commands of no, one or several paths; random commands of paths (all or some joints, "
    "repeated way points, held objects) and grips, run forwards, backwards and refined; non-trivial: plans of two steps or more, commands with parts",
    "motions and grips compared by identity and order; commands replayed in the kinematic world, every configuration, wait, held object and grip observed", note="", soft_quick=120,
    require={"rover_plans": 500, "many_rovers": 200, "grips_judged": 2000, "unknown_refused": 5, "arm_plans": 500, "step_move_insert": 100, "commands": 300, "grips_reversed": 100, "paths_refined": 500,
             "configurations_seen": 2000, "held_seen": 1000, "grips_made": 100}, **M)
reg("C45", "tamp_worlds", "containers", "random outer dimensions, thicknesses and sets of sides, all named containers with and without defaults, and the bins of the generated world; non-trivial: at least one wall",
    "corner points of the reported boxes compared with the built bodies and with the walls asked for", note="",
    require={"hollows": 2000, "walls": 5000, "built_bin": 50, "built_cubby": 50, "built_fence": 50, "bins_placed": 200}, **M)
reg("C47", "tamp_worlds", "worlds", "random robot scales, gaps, numbers of objects and seeds for the hallway with objects, the hallway, the corner and the insertion world, with arms that reach half of it; non-trivial: all distinct",
    "built bodies measured: corridor width along its length, flood fill for closed rooms and joined ends, exact collision of every start, goal and object", note="ends joined are asked for gaps that the 2 cm grid resolves",
    require={"worlds_manip": 50, "worlds_hallway": 50, "worlds_corner": 50, "worlds_arm": 30, "openings": 5000, "targets_placed": 200, "targets_joined": 50, "goals_joined": 50, "objects_placed": 200}, **M)
reg("C46", "tamp_prims", "primitives", "random tables with obstacles, objects, grasps, arms that fail a given number of times or collide, fluents, commands passing near an object, states captured and restored in any order; non-trivial: all distinct",
    "every placement, grasp, configuration, planner call and verdict compared with what the kinematic world says", note="contacts closer than 1e-6 are skipped; requests that no placement satisfies may go on for ever",
    require={"fixed_placements": 200, "fixed_refused": 50, "random_placements": 1000, "rover_placements": 300, "impossible_refused": 20, "grasps_judged": 500, "ik_found": 200, "ik_retried": 50, "ik_collides": 50, "ik_unreachable": 100,
             "obstacles_placed": 300, "teleports": 100, "transit_failures": 100, "transfers": 200, "transits": 200, "motions_refused": 50, "rover_motions": 100, "movable_hit": 100, "movable_free": 100, "own_object": 10,
             "states_restored": 500}, **M)
reg("C49", "tamp_pddl", "domains", "random courses of up to 21 actions in both domains, with up to three objects, streams that always succeed, and the intended course for half of the arm's; non-trivial: three actions or more",
    "facts compared after every action with a physical model that runs the motions, grips and releases", note="", soft_quick=120,
    require={"rover_pick": 500, "rover_place": 500, "arm_move_free": 500, "arm_move_holding": 300, "arm_move_insert": 200, "arm_pick": 500, "arm_place": 500, "arm_clean": 100, "states_judged": 5000, "literals_read": 50}, **B)
reg("C48", "tamp_problems", "problems", "random hallway worlds and insertion worlds, arms that do not reach an object or a bin, sample schedules, teleporting, adaptive; non-trivial: all distinct",
    "every fact judged in the kinematic world (who is where, what rests on what, what the arm holds where), every stream called with roadmaps that answer from a given size on, validity functions probed at the walls", note="",
    soft_quick=150, require={"facts_read": 2000, "objects_judged": 200, "kin_judged": 300, "supported_judged": 100, "streams_called": 100, "probes": 1000, "insertions_probed": 50, "unreachable_refused": 5}, **M)
reg("C50", "tamp_runs", "runs", "whole runs with random command lines of both experiments: seeds, sample schedules, gaps, margins, numbers of objects, adaptive, teleporting, with and without display, planners that give up, worlds the arm cannot use; "
    "non-trivial: all distinct",
    "log files read back; plans held against the domain file action by action; commands carried out in the kinematic world and every configuration judged; roadmap sizes recorded",
    note="the task planner is a scripted one that uses the real streams; half of the shards run each experiment", soft_quick=150,
    require={"logs_read": 40, "solved": 20, "unsolved": 5, "executed": 20, "targets_delivered": 15, "objects_inserted": 30, "configurations": 2000, "seeds_repeated": 15, "seeds_told_apart": 10, "worlds_retried": 3, "adaptive_asked": 5, "sizes_judged": 50}, **M)
reg("C51", "tamp_deploy", "deploy", "deployments against queues that drain at random, are held in part or whole, or fail to answer, with the lock removed at random; array tasks inside and outside the range; non-trivial: deployments, and tasks that run something",
    "submissions, looks and cancellations recorded by stand-ins of the queue commands, checked event by event against the queue they saw; options handed to the real programs", note="", soft_quick=150,
    require={"turtlebot_complete": 8, "arm_complete": 3, "adaptive_complete": 8, "submitted": 5000, "queue_looked": 500, "cancelled": 5, "stopped": 1, "tasks": 50, "tasks_outside": 3, "tasks_accepted": 10, "monitored": 20}, **M)
reg("C52", "tamp_plots", "plots", "folders of logs written by real runs of both experiments with one to four settings (fixed, growing and adaptive sample counts) and one to four runs each: solved, given up, without a path, broken off; other files beside them; non-trivial: all distinct",
    "bars, error bars, points and curves on the finished figures compared with what the runs did", note="the task planner is a scripted one; notebooks are run cell by cell", soft_quick=150,
    require={"runs_solved": 50, "runs_unsolved": 30, "runs_broken": 10, "programs_run": 50, "bars": 50, "points_sPRM": 10, "points_iPRM": 10, "points_aPRM": 10, "samples_drawn": 30, "bounds_drawn": 300}, **M)
reg("C53", "prm_animation", "animations", "roadmaps of the three kinds it can draw, 2 to 100 samples anywhere in the plane, after queries and growth, with and without edges and solutions, batch sizes from 1 to more than all; the planar motion stream with recording on; non-trivial: with edges",
    "every frame looked at by a recording writer; written files played back; plans compared with and without recording", note="frames are looked at as figures, not as pixels",
    require={"frames_seen": 5000, "edges_drawn": 5000, "paths_followed": 50, "failures_marked": 50, "without_edges": 5, "files_played": 10, "recorded_solved": 3, "recorded_unsolved": 3}, **M)
