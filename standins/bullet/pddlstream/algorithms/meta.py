import argparse

SOLVE = [None]


def solve(problem, **kw):
    return SOLVE[0](problem, **kw) if SOLVE[0] else (None, float("inf"), [])


def create_parser():
    p = argparse.ArgumentParser()
    p.add_argument("-a", "--algorithm", default="adaptive")
    p.add_argument("-u", "--unit", action="store_true")
    return p
