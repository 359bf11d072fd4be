import os

INF = float("inf")


def read(path):
    with open(path) as f:
        return f.read()


def get_file_path(file, rel):
    return os.path.join(os.path.dirname(os.path.abspath(file)), rel)


def negate_test(test):
    return lambda *args, **kw: not test(*args, **kw)
