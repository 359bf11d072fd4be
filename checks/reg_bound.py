from checks.registry import reg

NUM = "comparisons leave a rounding allowance of 1e-13 to 1e-8 (relative), far below any effect of a wrong formula"
MP = "60-digit arithmetic written for the monitor"
reg("C15", "bound_checks", "sample_bound", interp="vt",
    rule="random admissible inputs (dim 1-12, clearances down to 1e-7, volumes 1e-2..1e3, probabilities within 1e-12 of both "
         "ends, with and without stretch factor), plus generic unimodal bounds with a known answer and inadmissible "
         "probabilities; non-trivial: all distinct",
    technique="returned counts compared online with " + MP + "; a budget of executed lines turns a search that does not end into a violation",
    note="the oracle searches the bound in exact integers and 60 digits", assumptions=[NUM],
    require={"beyond_2_53": 50, "pinned": 500, "generic_searches": 1000, "refused": 10})
reg("C16", "bound_checks", "monotone", interp="vt",
    rule="a random admissible input and its neighbours in each argument, factors 1+1e-6 to 11; non-trivial: all distinct",
    technique="metamorphic monitors over recorded results of the same call at neighbouring inputs",
    note="compares the code only with itself", assumptions=[NUM],
    require={"chains": 1000, "strict_volume": 300, "strict_clearance": 300, "strict_probability": 200, "strict_stretch": 200})
reg("C17", "bound_checks", "formulas", interp="vt",
    rule="random inputs of every public formula, all dimensions 1-40 for the ball volume, stretch factors 0 to 1e6; non-trivial: all distinct",
    technique="returned values compared online with " + MP, note="oracle: the definitions in 60 digits", assumptions=[NUM],
    require={"connection_radii": 3000, "far_tolerances": 5000, "bound_radii": 300, "no_stretch": 500})
reg("C18", "bound_checks", "tails", interp="vt",
    rule="random sample counts 3-3000, neighbour counts, radii (from far below the mean to above it), dimensions and volumes; non-trivial: all distinct",
    technique="every reported bound compared online with the exact binomial tail and the inequality it is named after",
    note="the exact tail is summed term by term in log space", assumptions=[NUM],
    require={"larger_than_space": 100, "judged_hoeffding": 4000, "judged_chernoff": 2000, "informative_kl": 500, "informative_hoeffding": 300,
             "informative_hoeffding_mean": 300, "informative_chernoff": 500, "informative_kl_single": 500})
reg("C19", "bound_checks", "search", interp="vt",
    rule="strictly monotone bounds of three shapes with a known crossing (inside, beyond and within the tolerance of the ends), random intervals and "
         "tolerances, and the repository's own bounds end to end; non-trivial: all distinct",
    technique="returned radius compared online with the known crossing; end-to-end radius judged by the exact binomial tail; line budget for termination",
    note="radii are asked where the bound changes by more than rounding within the tolerance", assumptions=[NUM],
    require={"inside": 300, "none_certified": 300, "all_certified": 300, "end_to_end": 300, "above_lower_end": 200})
reg("C20", "bound_checks", "closed_form", interp="vt",
    rule="random sample counts to 1e4, neighbour counts, dimensions, volumes (smaller and larger than the unit ball) and failure probabilities with a "
         "positive expression; non-trivial: all distinct",
    technique="returned radius compared online with the stated expression and judged by the exact binomial tail",
    note="both oracles are independent of the code", assumptions=[NUM], require={"radii": 4000, "unit_ball_larger_than_env": 1000})
reg("C21", "bound_checks", "inverse", interp="vt",
    rule="random dimensions, counts 3..1e12, failure probabilities and volumes; non-trivial: all distinct",
    technique="returned radius put back into the exact bound; round trips through the code's own sample bound",
    note="oracle: the bound in exact integers and 60 digits", assumptions=[NUM], require={"round_trips": 1000})
reg("C22", "bound_checks", "blumer", interp="vt",
    rule="random radii with ball measures 1e-150..8, dimensions to 60, failure probabilities and volumes; non-trivial: all distinct",
    technique="returned values compared online with the stated expression; metamorphic monotonicity monitors",
    note="oracle: the expression in 60 digits", assumptions=[NUM], require={"first_term_rules": 300, "second_term_rules": 3000})
