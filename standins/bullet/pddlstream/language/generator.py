def from_list_fn(fn):
    return lambda *a, **k: iter([fn(*a, **k)])


def from_fn(fn):
    def listed(*a, **k):
        out = fn(*a, **k)
        return [] if out is None else [out]
    return from_list_fn(listed)


def from_gen_fn(fn):
    return lambda *a, **k: ([] if o is None else [o] for o in fn(*a, **k))


def from_test(test):
    return from_fn(lambda *a, **k: () if test(*a, **k) else None)
