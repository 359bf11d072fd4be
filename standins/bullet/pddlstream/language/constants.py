from collections import namedtuple

PDDLProblem = namedtuple("PDDLProblem", ["domain_pddl", "constant_map", "stream_pddl", "stream_map", "init", "goal"])


def And(*conditions):
    return ("and",) + conditions


def Output(*args):
    return tuple(args)


def print_solution(solution):
    print("Solved: {}".format(solution[0] is not None))
