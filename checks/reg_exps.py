from checks.registry import reg

A = ["pandas, networkit, pynndescent and kgraph are absent here and replaced by stand-ins; tables are written row by row",
     "the completeness check the line experiment asks for no longer exists in the environment; a fixed function of its arguments stands in for it"]
S = dict(standins=["graph", "pynn", "kg", "frames"], assumptions=A)
reg("C33", "exps_checks", "partition", "random configurations of the three experiments, 1 to combinations+3 processes in random order, the real scripts run in forked processes; "
    "non-trivial: more than one process", "rows of all result files counted per combination, files touched by each process observed",
    note="", require={"processes": 300, "combinations": 500, "processes_without_work": 20}, **S)
reg("C34", "exps_checks", "resuming", "random configurations; one process stopped at one to five observable events (file opened, renamed, removed, table line written), "
    "by sudden end or by interrupt, then started again until it ends; non-trivial: at least one stop took effect",
    "offline comparison of the final table with that of an uninterrupted run; exit codes of every restart",
    note="stops fall between observable events; sudden end leaves what had reached the file", require={"runs_crashed": 300, "crash_while_writing": 100, "resumed_compared": 300}, **S)
reg("C35", "exps_checks", "narrow", "random dimensions, clearances, schedules, maximal settings and seeds, both roadmap kinds, the real script; non-trivial: all distinct",
    "samples and questions recorded through public calls; every record judged by an independent search over independently built roadmaps",
    note="the oracle enumerates all pairs of the recorded samples", require={"records_radius": 300, "records_knn": 300, "records_with_path": 200, "records_without_path": 100,
                                                                            "records_with_both": 100}, **S)
reg("C36", "exps_checks", "knn", "random dimensions, clearances, schedules and seeds, the real script; non-trivial: all distinct",
    "every record compared with a brute-force recomputation from its own seed", note="with the index library the experiment asks for (kgraph)",
    require={"records_judged": 3000}, **S)
reg("C37", "exps_checks", "job_scripts", "random kinds, names (prefixes of each other included), configurations, triples and sets of earlier runs and result files; missing pieces; non-trivial: all distinct",
    "cluster commands replaced by recording stand-ins; stored files, submitted jobs (run with stand-in commands), tables and the tree of earlier results compared",
    note="modification times agree with the time stamps of the runs", require={"case_submit": 30, "jobs_run": 30, "case_resume": 30, "case_aggregate": 30, "case_submit-bad": 30, "triples": 50, "statistics": 30}, **S)
reg("C54", "exps_checks", "line", "random dimensions, clearances, schedules, neighbour limits, seeds and verdicts (by a threshold, or arbitrary; some timed out), the real script; non-trivial: all distinct",
    "samples, growths and completeness questions recorded through public calls; every record compared with the verdicts given and with brute-force neighbour distances",
    note="verdicts come from the monitor: the environment's own check does not exist any more", require={"records_judged": 500, "records_complete": 200, "records_incomplete": 200, "timeouts": 50}, **S)
