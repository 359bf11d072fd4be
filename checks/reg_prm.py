from checks.registry import reg

LIBS = ("networkit, pynndescent and kgraph are absent here and replaced by exact stand-ins that keep their observable habits "
        "(id holes, removal while iterating, float32 distances, self as first neighbour); half of the shards run without kgraph")
S = dict(standins=["graph", "pynn", "kg", "frames"], assumptions=[LIBS])
HIST = ("random histories of growth, radius and neighbour settings, queries and resets of all four roadmap kinds (2-170 samples, dim 2-5, five kinds of "
        "obstacle worlds, with and without kgraph); non-trivial: more than one operation")
reg("C23", "prm_checks", "soundness", HIST, "every edge of the real roadmap compared online after every operation with brute-force geometry and the checker's verdict",
    note="the oracle enumerates all pairs", require={"edges_observed": 50000, "op_restrict": 300, "op_grow": 800, "pairs_invalid_within_reach": 10000}, **S)
reg("C24", "prm_checks", "completeness", HIST, "every promised pair looked up in the real roadmap online after every operation",
    note="promised pairs come from brute-force neighbours and the checker's verdict",
    require={"pairs_promised": 50000, "certified_pairs": 2000, "uncapped": 200, "op_grow": 800, "coincident_pairs": 1000}, **S)
reg("C25", "prm_checks", "queries", HIST + "; six queries after each operation, ends on samples, equal, far outside or random",
    "returned distance and path compared online with an independent search over the observed edges",
    note="the oracle is a label-setting search written for the monitor",
    require={"queries_with_path": 2000, "queries_without_path": 2000}, **S)
reg("C26", "prm_checks", "no_trace", "twin roadmaps with equal seeds through equal histories, only one of them queried; non-trivial: all distinct",
    "snapshots of vertices, edges, weights and samples compared before and after each query, and with the unqueried twin after each growth and setting",
    note="compares the code with itself", require={"twins_compared": 1000, "queries": 2000, "repeated_queries": 2000, "listings": 200}, **S)
reg("C27", "prm_checks", "settings", "random sequences of radius and neighbour settings, alone and mixed, up and down, between growths, beyond the certified radius too; non-trivial: all distinct",
    "edges compared online after every setting with the brute-force set for the last setting alone",
    note="whether neighbour settings outlive a growth or reset is left open",
    require={"settings_r": 800, "settings_k": 500, "settings_mixed": 400, "refusals": 100}, **S)
reg("C28", "prm_checks", "growth", HIST + "; shrink requests in between; stepwise twins",
    "sampler calls recorded and compared with the roadmap's samples; snapshots and answers around refused requests",
    note="", require={"growths_kept": 300, "shrinks_refused": 300, "stepwise_twins": 150}, **S)
reg("C29", "prm_checks", "listings", HIST + "; in and out of experiment mode, ends on the path and elsewhere",
    "every listed pair, coordinate and distance compared online with independent neighbour lists and searches",
    note="a refusal is accepted off the path, out of experiment mode and from the roadmap that cannot compute distances",
    require={"listings": 1000, "pairs_judged": 10000, "refused": 100}, **S)
reg("C30", "prm_checks", "isolation", "2-4 roadmaps (equal seeds included) interleaved operation by operation in one process, and 2-3 forked processes taking turns; finished trials; non-trivial: all distinct",
    "files seen through interpreter audit events; every result compared with the same roadmap alone; directories inspected after reset",
    note="interleavings are at the granularity of public operations",
    require={"files_seen": 100, "process_crowds": 30, "process_files_seen": 50, "trials": 16, "resets_among_others": 100}, **S)
reg("C31", "prm_checks", "index", "random point sets (dim 1-9, 4-150 points, scales 1e-3 to 1e5; spread out, clustered, on a grid, repeated), neighbour counts, updates and rebuilds; non-trivial: all distinct",
    "returned rows compared online with brute-force neighbours", note="stand-in libraries are exact, so the rows must be, too",
    require={"built_kgraph": 100, "built_pynndescent": 100, "updates_kgraph": 100, "updates_pynndescent": 100, "names_refused": 9, "rebuilds": 100}, **S)
reg("C32", "prm_checks", "saving", HIST + "; saved after each operation",
    "written files read back and compared with the roadmap", note="the graph file format is the stand-in's",
    require={"saves": 1000, "edges_reloaded": 20000, "refused": 8}, **S)
