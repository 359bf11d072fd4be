"""C15-C22: the finite-sample bound and its relatives, watched from outside and compared with
independent high-precision arithmetic (mpmath, Python integers)."""
import math

import mpmath as mp
import numpy as np
import scipy
import scipy.special
import scipy.stats

from nonasymptotic import bound as B
from rtm.core import StepBudgetExceeded, step_budget

mp.mp.dps = 60


# -- independent oracles ------------------------------------------------------------------
def o_ball(dim):
    return mp.pi ** (mp.mpf(dim) / 2) / mp.gamma(mp.mpf(dim) / 2 + 1)


def o_alpha(tol):
    return mp.mpf(1) if tol is None else mp.mpf(tol) / mp.sqrt(1 + mp.mpf(tol) ** 2)


def o_rho(c, tol, dim, vol):
    return o_ball(dim) * (o_alpha(tol) * mp.mpf(c)) ** dim / mp.mpf(vol)


def o_comb(m, dim):
    s = t = 1
    for i in range(1, dim + 2):
        t = t * (2 * m - i + 1) // i
        s += t
    return s


def o_f(m, rho, dim):
    return 1 + mp.log(o_comb(m, dim), 2) - rho * m / 2


def o_step(m, rho, dim):
    """o_f(m + 1) - o_f(m) without cancellation."""
    a = o_comb(m, dim)
    return mp.log1p(mp.mpf(o_comb(m + 1, dim) - a) / a) / mp.log(2) - rho / 2


def o_least(rho, dim, target, slack):
    """Least m >= 2 from which the bound is within `target` and no longer increasing, with the
    comparison relaxed (slack > 0) or tightened (slack < 0) by a relative rounding allowance."""
    def ok(m):
        a = o_f(m, rho, dim)
        e = mp.mpf(slack) * (abs(a) + rho * m + 1)
        return a <= target + e and o_step(m, rho, dim) <= (e if m < 10 ** 6 else 0)
    ub = 2
    while not ok(ub):
        ub *= 2
    lb = 1
    while ub - lb > 1:
        t = (lb + ub) // 2
        if ok(t):
            ub = t
        else:
            lb = t
    return ub


LAST = []


def draw(rng, tiny=False, high=True):
    """A set of arguments; at times much the same as the one before, or of many dimensions."""
    if LAST and rng.random() < .15:
        args = list(LAST[-1])
        w = int(rng.choice([0, 0, 0, 1, 2, 4]))
        if args[w] is not None:
            g = args[w] * (1 + float(10 ** rng.uniform(-9, -2.5) * rng.choice([-1, 1])))
            args[w] = g if w != 1 or 0 < g < 1 else args[w]
        LAST[:] = [tuple(args)]
        return LAST[-1]
    LAST[:] = [_draw(rng, tiny, high)]
    return LAST[-1]


def _draw(rng, tiny, high):
    dim = int(rng.integers(1, 13)) if not high or rng.random() < .95 else int(rng.integers(13, 33))
    c = float(10 ** rng.uniform(-7 if tiny else -3.5, 0.3))
    tol = None if rng.random() < 0.25 else float(10 ** rng.uniform(-2, 1.3))
    vol = float(10 ** rng.uniform(-2, 3))
    sp = float(rng.choice([rng.uniform(0.01, 0.99), 1 - 10 ** rng.uniform(-12, -1), 10 ** rng.uniform(-12, -1), 0.5, 0.9, 0.99]))
    if dim > 12:
        c, tol = float(10 ** rng.uniform(-.5, .3)), None if tol is None else max(tol, .5)
    elif rng.random() < 0.3:
        c = float(rng.choice([1.0, 0.5, 0.1, 0.05, 0.01]))
        vol = float(rng.choice([1.0, 2.0, 4.0, 16.0]))
    return c, sp, vol, dim, tol


def within(got, want, rel=1e-9):
    got, want = float(got), float(want)
    return math.isfinite(got) and abs(got - want) <= rel * max(abs(want), 1e-300)


# -- C15 ----------------------------------------------------------------------------------
def sample_bound(mon):
    rng = mon.rng("c15")
    for i in range(mon.n(1600, 40000)):
        if mon.hurry():
            break
        c, sp, vol, dim, tol = draw(rng, tiny=i % 3 == 0)
        case = dict(clearance=c, success_prob=sp, volume=vol, dim=dim, tol=tol)
        rho = o_rho(c, tol, dim, vol)
        if rho < mp.mpf(10) ** -250:
            continue
        target = mp.log(1 - mp.mpf(sp), 2)
        try:
            with step_budget(400000):
                m = B.compute_numerical_bound(c, sp, vol, dim, tol)[0]
        except StepBudgetExceeded:
            mon.violate("search-does-not-end", **case)
            continue
        except Exception as e:
            mon.violate("admissible-input-refused", exception=repr(e), **case)
            continue
        mon.case(tuple(case.values()))
        if int(m) != m or m < 2:
            mon.violate("not-a-count", got=str(m), **case)
            continue
        m = int(m)
        lo, hi = o_least(rho, dim, target, 1e-13), o_least(rho, dim, target, -1e-13)
        mon.count("beyond_2_53", m > 2 ** 53)
        mon.count("pinned", lo == hi)
        mon.count("at_floor", hi == 2)
        mon.count("on_downhill_side", o_f(2, rho, dim) <= target and hi > 2)
        mon.peak("log2_count", math.log2(m))
        # beyond 2^46 neighbouring values of the double-precision bound may differ by less than its rounding
        pad = m // 10 ** 12
        if m < lo - pad:
            mon.violate("insufficient", got=str(m), least=str(lo), **case)
        elif m > (hi if hi <= 2 ** 46 else 2 * hi):
            mon.violate("not-least", got=str(m), least=str(hi), **case)
        mon.sample(dict(case, m=str(m)))
    # the generic search, handed other log-probability bounds: unimodal ones with a known answer
    for i in range(mon.n(1500, 30000)):
        if mon.hurry():
            break
        peak = int(10 ** rng.uniform(0, 12))
        kind = i % 3
        sp = float(rng.choice([0.5, 0.75, 0.875, 0.9375]))
        lf = round(math.log2(1 - sp))
        if kind == 0:    # decreasing from the start, crossing between two integers
            cut = int(10 ** rng.uniform(0.4, 15))
            fn, want = (lambda m, cut=cut: lf + (cut - m) + 0.5), cut + 1
        elif kind == 1:  # tent: below the target before the hump as well
            h = int(10 ** rng.uniform(0, 12))
            fn, want = (lambda m, p=peak, h=h: lf - 0.5 + h - abs(m - p)), peak + h
        else:            # never above the target, but increasing up to the peak
            fn, want = (lambda m, p=peak: lf - 5 - abs(m - p)), peak
        want = max(want, 2)
        calls = []

        def seen(m, fn=fn):
            calls.append(m)
            return fn(m)
        try:
            with step_budget(50000):
                got = B.doubling_sample_search_over_log2_prob_bound(seen, sp)
        except StepBudgetExceeded:
            mon.violate("generic-search-does-not-end", shape=kind, want=want, last=[str(x) for x in calls[-5:]])
            continue
        mon.case(("generic", kind, want, sp))
        mon.count("generic_searches")
        mon.count("bound_calls", len(calls))
        ok = [got == want, got == want, got == want][kind]
        if kind == 1 and not ok:
            # when the tent starts above... the search is entitled to the first admissible m only
            ok = fn(got) <= lf and fn(got + 1) <= fn(got) and (got == 2 or fn(got - 1) > lf or fn(got) > fn(got - 1))
        mon.expect(ok, "generic-search-wrong", shape=kind, got=str(got), want=str(want), success_prob=sp)
    for bad in [0.0, 1.0, -0.1, 1.1, 2.0, -1e-300, 1 + 1e-12, -5.0, 0, 1]:
        c, _, vol, dim, tol = draw(rng)
        try:
            with step_budget(400000):
                got = B.compute_numerical_bound(c, bad, vol, dim, tol)
            mon.violate("inadmissible-probability-accepted", success_prob=bad, got=got)
        except StepBudgetExceeded:
            mon.violate("inadmissible-probability-hangs", success_prob=bad)
        except ArithmeticError:
            mon.count("refused")
        mon.case(("refuse", bad, c))


# -- C16 ----------------------------------------------------------------------------------
def monotone(mon):
    rng = mon.rng("c16")

    def count(c, sp, vol, dim, tol):
        with step_budget(400000):
            return int(B.compute_numerical_bound(c, sp, vol, dim, tol)[0])

    def leq(a, b):
        # see C15: beyond 2^46 counts are only promised to within a factor of two
        return a <= b if a <= 2 ** 46 else a <= 2 * b

    for i in range(mon.n(1600, 40000)):
        if mon.hurry():
            break
        c, sp, vol, dim, tol = draw(rng, tiny=i % 4 == 0)
        if o_rho(c, tol, dim, vol) < mp.mpf(10) ** -200:
            continue
        base = dict(clearance=c, success_prob=sp, volume=vol, dim=dim, tol=tol)
        try:
            m = count(c, sp, vol, dim, tol)
            g = 1 + float(10 ** rng.uniform(-6, 1))
            n_vol = count(c, sp, vol * g, dim, tol)
            g2 = 1 + float(10 ** rng.uniform(-6, 0))
            n_c = count(c / g2, sp, vol, dim, tol)
            sp2 = 1 - (1 - sp) / g
            n_sp = count(c, sp2, vol, dim, tol) if sp2 < 1 else None
            n_t = count(c, sp, vol, dim, tol / g2) if tol is not None else None
            n_none = count(c, sp, vol, dim, None)
            s = float(2.0 ** rng.integers(-6, 7))
            n_s = count(c * s, sp, vol * s ** dim, dim, tol)
            s2 = float(10 ** rng.uniform(-1, 1))
            n_s2 = count(c * s2, sp, vol * s2 ** dim, dim, tol)
        except StepBudgetExceeded:
            mon.violate("search-does-not-end", **base)
            continue
        mon.case(tuple(base.values()))
        mon.count("chains")
        mon.count("strict_volume", n_vol > m)
        mon.count("strict_clearance", n_c > m)
        mon.expect(leq(m, n_vol), "decreases-with-volume", got=[str(m), str(n_vol)], factor=g, **base)
        mon.expect(leq(m, n_c), "decreases-as-clearance-shrinks", got=[str(m), str(n_c)], factor=g2, **base)
        if n_sp is not None:
            mon.count("strict_probability", n_sp > m)
            mon.expect(leq(m, n_sp), "decreases-with-probability", got=[str(m), str(n_sp)], other=sp2, **base)
        if n_t is not None:
            mon.count("strict_stretch", n_t > m)
            mon.expect(leq(m, n_t), "decreases-as-stretch-shrinks", got=[str(m), str(n_t)], factor=g2, **base)
        mon.expect(leq(n_none, m), "existence-needs-more", got=[str(m), str(n_none)], **base)
        close = lambda n: abs(n - m) <= m // 10 ** 11 + 1 if m <= 2 ** 46 else m <= 2 * n <= 4 * m
        mon.expect(close(n_s) and close(n_s2), "not-scale-free",
                   got=[str(m), str(n_s), str(n_s2)], scales=[s, s2], **base)
        mon.sample(dict(base, m=str(m), larger_volume=str(n_vol), smaller_clearance=str(n_c)))


# -- C17 ----------------------------------------------------------------------------------
def formulas(mon):
    rng = mon.rng("c17")
    for dim in range(1, 41):
        v = B.compute_vol_unit_sphere(dim)
        mon.case(("ball", dim))
        mon.expect(within(v, o_ball(dim)), "ball-volume", dim=dim, got=float(v), want=float(o_ball(dim)))
    for i in range(mon.n(8000, 100000)):
        if mon.hurry():
            break
        c, sp, vol, dim, tol = draw(rng)
        base = dict(clearance=c, volume=vol, dim=dim, tol=tol)
        mon.case(tuple(base.values()))
        a = o_alpha(tol)
        conn = 2 * (a + mp.sqrt(1 - a * a)) * mp.mpf(c)
        net = B.compute_epsilon_net_radius(c, tol)
        mon.expect(within(net, a * mp.mpf(c)), "net-radius", got=float(net), want=float(a * c), **base)
        rho = B.compute_rho(c, tol, dim, vol)
        mon.expect(within(rho, o_rho(c, tol, dim, vol)), "ball-measure", got=float(rho),
                   want=float(o_rho(c, tol, dim, vol)), **base)
        if tol is not None:
            r = B.compute_connection_radius(c, tol)
            mon.expect(within(r, conn), "connection-radius", got=float(r), want=float(conn), **base)
            mon.count("connection_radii")
        if i % 8 == 0 and o_rho(c, tol, dim, vol) > mp.mpf(10) ** -200:
            with step_budget(400000):
                r = B.compute_numerical_bound(c, sp, vol, dim, tol)[1]
            mon.expect(within(r, conn), "bound-connection-radius", got=float(r), want=float(conn), **base)
            mon.count("bound_radii")
        # stretch factors of every magnitude, none at all included
        far = 0 if i % 40 == 0 else 0.0 if i % 40 == 1 else int(rng.integers(1, 2000)) if i % 10 == 2 else float(10 ** rng.uniform(-6, 6))
        af = o_alpha(far)
        for what, got, want in (("net-radius", B.compute_epsilon_net_radius(c, far), af * mp.mpf(c)),
                                ("ball-measure", B.compute_rho(c, far, dim, vol), o_rho(c, far, dim, vol)),
                                ("connection-radius", B.compute_connection_radius(c, far), 2 * (af + mp.sqrt(1 - af * af)) * mp.mpf(c))):
            mon.expect(within(got, want), what, got=float(got), want=float(want), clearance=c, volume=vol, dim=dim, tol=far)
        mon.count("far_tolerances")
        s = float(10 ** rng.uniform(-2, 2))
        mon.expect(within(B.compute_epsilon_net_radius(c * s, tol), net * s), "net-radius-not-linear", scale=s, **base)
        mon.count("no_stretch", tol is None)
        mon.sample(dict(base, net=float(net), rho=float(rho)))


# -- C18 ----------------------------------------------------------------------------------
def log_tail(n, k, p):
    """log P(Bin(n, p) >= k), exactly up to rounding."""
    if p >= 1:
        return 0.0
    j = np.arange(k, n + 1)
    lp = (scipy.special.gammaln(n + 1) - scipy.special.gammaln(j + 1) - scipy.special.gammaln(n - j + 1)
          + j * math.log(p) + (n - j) * math.log1p(-p))
    hi = lp.max()
    return float(hi + math.log(np.exp(lp - hi).sum()))


TAILS = [("hoeffding", "compute_tail_knn_radius_log_prob_hoeffding", {}, True),
         ("hoeffding_mean", "compute_tail_knn_radius_log_prob_hoeffding_mean_variant", {}, True),
         ("chernoff", "compute_tail_knn_radius_log_prob_chernoff_generic", {}, True),
         ("kl", "compute_tail_knn_radius_log_prob_chernoff_kl", {}, True),
         ("kl_single", "compute_tail_knn_radius_log_prob_chernoff_kl", {"enable_union_bound_factor": False}, False)]


def stated(name, m, k, p):
    """The inequalities the bounds are named after; looser ones would be sound and useless."""
    p, q, single = min(p, 1.0), k / (m - 1), math.log(m)
    if name.startswith("hoeffding"):
        return single - 2 * (m - 1) * max(q - p, 0.0) ** 2
    if name == "chernoff":
        mu = (m - 1) * p
        return single - mu + k * (1 + math.log(mu) - math.log(k))
    t = max(k / m, p)
    kl = 0.0 if t >= 1 else t * math.log(t / p) + (1 - t) * (math.log1p(-t) - math.log1p(-p))
    return (single if name == "kl" else 0.0) - (m - 1) * kl


def rad_of(p, dim, vol):
    return float((mp.mpf(p) * mp.mpf(vol) / o_ball(dim)) ** (mp.mpf(1) / dim))


def tails(mon):
    rng = mon.rng("c18")
    for i in range(mon.n(8000, 150000)):
        if mon.hurry():
            break
        m = int(10 ** rng.uniform(0.5, 3.5))
        m = max(m, 3)
        k = int(rng.integers(1, m)) if rng.random() < 0.5 else max(1, min(m - 1, int(10 ** rng.uniform(0, math.log10(m)))))
        dim = int(rng.integers(1, 13))
        vol = float(10 ** rng.uniform(-1, 2))
        q = k / (m - 1)
        style = rng.integers(0, 4) if rng.random() < .95 else 4
        if style == 4:
            p = float(10 ** rng.uniform(.001, 1))        # the ball is larger than the space
        elif style == 0:
            p = q * rng.uniform(0, 1)
        elif style == 1:
            p = q * 10 ** rng.uniform(-6, 0)
        elif style == 2:
            p = max(q - 10 ** rng.uniform(-4, 0) * q, 1e-12)
        else:
            p = rng.uniform(0, 1)
        p = float(min(max(p, 1e-12), 0.999999)) if style != 4 else p
        r = rad_of(p, dim, vol)
        p = float(o_ball(dim) * mp.mpf(r) ** dim / mp.mpf(vol))
        exact = log_tail(m - 1, k, p)
        r2 = r * float(rng.uniform(0.3, 0.9999))
        in_range = (m - 1) * p <= k * (1 - 1e-9)
        mon.case((m, k, dim, vol, r))
        mon.count("below_mean", not in_range)
        mon.count("larger_than_space", p > 1)
        for name, fn, kw, union in TAILS:
            if name == "chernoff" and not in_range:
                continue  # the inequality is about the upper tail only
            got = float(getattr(B, fn)(m, k, r, dim, vol, **kw))
            want = exact + (math.log(m) if union else 0.0)
            mon.count("judged_" + name)
            tolr = 1e-8 * (1 + abs(want)) + 1e-7 * abs(got if math.isfinite(got) else 0)
            mon.expect(got >= want - tolr, "understates-" + name, m=m, k=k, radius=r, dim=dim, vol=vol,
                       got=got, exact=want)
            got2 = float(getattr(B, fn)(m, k, r2, dim, vol, **kw))
            mon.expect(got2 <= got + tolr, "grows-as-radius-shrinks-" + name, m=m, k=k, radius=[r, r2], dim=dim, vol=vol,
                       got=[got, got2])
            w = stated(name, m, k, p)
            mon.expect(got <= w + 1e-6 * (1 + abs(w)), "looser-than-stated-" + name, m=m, k=k, radius=r, dim=dim, vol=vol, got=got, wanted=w)
            mon.count("informative_" + name, w < math.log(0.5))
        mon.sample(dict(m=m, k=k, radius=r, dim=dim, vol=vol, exact_log=exact))


# -- C19 ----------------------------------------------------------------------------------
def search(mon):
    rng = mon.rng("c19")
    for i in range(mon.n(4000, 60000)):
        if mon.hurry():
            break
        lb = float(rng.choice([0.0, 10 ** rng.uniform(-4, 1)]))
        ub = lb + float(10 ** rng.uniform(-2, 2))
        tol = float(10 ** rng.uniform(-8, -1.5))
        kw = {} if rng.random() < 0.2 else {"tol": tol}
        if not kw:
            tol = 1e-6
        sp = float(rng.choice([0.5, 0.9, 0.99, 1 - 1e-6, rng.uniform(0.01, 0.999)]))
        lf = math.log(1 - sp)
        where = i % 5
        cut = [lb + (ub - lb) * rng.random(), lb - 0.1, ub + 0.1, lb + tol * rng.random(), ub - tol * rng.random()][where]
        cut = float(cut)
        a = float(10 ** rng.uniform(-1, 3))
        # strictly increasing in the radius, crossing the allowed log probability at `cut`
        shape = (i // 5) % 3
        fn = [lambda r: lf + a * (r - cut), lambda r: lf + a * math.expm1((r - cut) / ub),
              lambda r: lf + a * ((r / ub) ** 3 - (cut / ub) ** 3) + a * (r - cut)][shape]
        asked = []

        def seen(r):
            asked.append(float(r))
            return fn(r)
        case = dict(lb=lb, ub=ub, tol=tol, success_prob=sp, crossing=cut, shape=shape)
        try:
            with step_budget(20000):
                got = float(B.halving_radius_search_over_log_prob_bound(seen, lb, ub, sp, **kw))
        except StepBudgetExceeded:
            mon.violate("search-does-not-end", **case)
            continue
        mon.case((lb, ub, tol, sp, cut, shape))
        mon.count(["inside", "none_certified", "all_certified", "near_lower", "near_upper"][where])
        mon.count("bound_calls", len(asked))
        eps = 1e-9 * (1 + ub)
        mon.expect(lb - eps <= got <= ub + eps, "outside-interval", got=got, **case)
        if cut <= lb:
            mon.expect(abs(got - lb) <= eps, "no-radius-but-not-lower-end", got=got, **case)
        else:
            mon.expect(got <= cut + eps, "uncertified-radius", got=got, **case)
            mon.expect(got >= min(cut, ub) - tol - eps, "not-nearly-largest", got=got, **case)
        mon.sample(dict(case, got=got))
    # with the repository's own bounds: the radius found really has the promised probability
    for i in range(mon.n(1600, 30000)):
        if mon.hurry():
            break
        m = int(10 ** rng.uniform(1, 3.3))
        k = int(rng.integers(1, m))
        dim = int(rng.integers(1, 9))
        vol = float(10 ** rng.uniform(-0.5, 1))
        sp = float(rng.choice([0.5, 0.9, 0.99, 0.999]))
        name, fn, kw, union = TAILS[i % len(TAILS)]
        lb = rad_of(1e-9, dim, vol)
        ub = rad_of(rng.choice([0.2, 0.999]), dim, vol)
        case = dict(bound=name, m=m, k=k, dim=dim, vol=vol, success_prob=sp)
        g = lambda r: getattr(B, fn)(m, k, r, dim, vol, **kw)
        if g(lb) > math.log(1 - sp):
            continue
        try:
            with step_budget(100000):
                r = float(B.halving_radius_search_over_log_prob_bound(g, lb, ub, sp))
        except StepBudgetExceeded:
            mon.violate("search-does-not-end", **case)
            continue
        p = float(o_ball(dim) * mp.mpf(r) ** dim / mp.mpf(vol))
        want = log_tail(m - 1, k, p) + (math.log(m) if union else 0.0)
        mon.case(tuple(case.values()))
        mon.count("end_to_end")
        mon.count("above_lower_end", r > lb * 1.01)
        mon.expect(want <= math.log(1 - sp) + 1e-7, "certified-radius-fails-too-often", radius=r, log_failure=want, **case)


# -- C20 ----------------------------------------------------------------------------------
def closed_form(mon):
    rng = mon.rng("c20")
    for i in range(mon.n(16000, 200000)):
        if mon.hurry():
            break
        m = max(3, int(10 ** rng.uniform(0.7, 4)))
        k = int(rng.integers(1, m))
        dim = int(rng.integers(1, 13))
        vol = float(10 ** rng.uniform(-2, 3))
        gamma = float(rng.choice([0.5, 0.1, 0.01, 10 ** rng.uniform(-9, -0.05)]))
        numer = mp.mpf(k) - mp.sqrt(2 * mp.mpf(k) * (mp.log(m) - mp.log(mp.mpf(gamma))))
        case = dict(m=m, k=k, dim=dim, vol=vol, failure_prob=gamma)
        if numer < 1e-6 * k:
            mon.count("not_positive")
            if numer < -1e-6 * k:       # nothing is certified: no radius may come out
                try:
                    r = B.compute_eff_conn_rad_bound(m, k, dim, vol, gamma)
                    mon.expect(not (isinstance(r, (float, np.floating)) and r > 0), "radius-out-of-nothing", got=r, **case)
                except (ValueError, ArithmeticError):
                    mon.count("refused_nothing_certified")
            continue
        r = float(B.compute_eff_conn_rad_bound(m, k, dim, vol, gamma))
        want = (numer / ((m - 1) * o_ball(dim) / mp.mpf(vol))) ** (mp.mpf(1) / dim)
        mon.case(tuple(case.values()))
        mon.count("radii")
        mon.count("unit_ball_larger_than_env", o_ball(dim) > vol)
        mon.expect(within(r, want, 1e-8), "not-the-stated-expression", got=r, want=float(want), **case)
        p = float(o_ball(dim) * mp.mpf(r) ** dim / mp.mpf(vol))
        fail = log_tail(m - 1, k, min(p, 1.0)) + math.log(m)
        mon.expect(fail <= math.log(gamma) + 1e-7, "fails-too-often", radius=r, log_failure=fail, **case)
        mon.sample(dict(case, radius=r, log_failure=fail))


# -- C21 ----------------------------------------------------------------------------------
def inverse(mon):
    rng = mon.rng("c21")
    for i in range(mon.n(8000, 100000)):
        if mon.hurry():
            break
        dim = int(rng.integers(1, 13)) if rng.random() < .85 else int(rng.integers(13, 41))
        n = int(10 ** rng.uniform(0.5, 12))
        gamma = float(rng.choice([0.5, 0.1, 0.01, 10 ** rng.uniform(-9, -0.05)]))
        vol = float(10 ** rng.uniform(-2, 3))
        case = dict(dim=dim, n=n, failure_prob=gamma, vol=vol)
        r = float(B.compute_net_radius_from_prob(dim, n, gamma, vol))
        rho = o_ball(dim) * mp.mpf(r) ** dim / mp.mpf(vol)
        f = o_f(n, rho, dim)
        mon.case(tuple(case.values()))
        scale = float(abs(f) + rho * n + 1)
        mon.expect(abs(f - mp.log(mp.mpf(gamma), 2)) <= 1e-9 * scale, "not-the-inverse", radius=r,
                   log2_failure=float(f), want=math.log2(gamma), **case)
        n2 = n + max(1, int(n * rng.uniform(0, 3)))
        r2 = float(B.compute_net_radius_from_prob(dim, n2, gamma, vol))
        # the radius shrinks once the count is past the hump of log(C)/n, i.e. everywhere here
        mon.expect(r2 <= r * (1 + 1e-12), "grows-with-n", radii=[r, r2], n2=n2, **case)
        if i % 4 == 0:
            with step_budget(400000):
                need = int(B.compute_numerical_bound(r * (1 + 1e-9), 1 - gamma, vol, dim, None)[0])
            mon.expect(need <= n + 1, "n-samples-do-not-suffice", radius=r, need=str(need), **case)
            mon.count("round_trips")
        mon.sample(dict(case, radius=r))


# -- C22 ----------------------------------------------------------------------------------
def blumer(mon):
    rng = mon.rng("c22")
    for i in range(mon.n(16000, 200000)):
        if mon.hurry():
            break
        dim = int(rng.integers(1, 13)) if rng.random() < .8 else int(rng.integers(13, 61))
        vol = float(10 ** rng.uniform(-2, 3))
        p = float(10 ** rng.uniform(-8, 0)) if rng.random() < .7 else float(10 ** rng.choice([rng.uniform(-60, -8), rng.uniform(-150, -60), rng.uniform(0, .9)]))
        r = rad_of(p, dim, vol)
        mon.count("tiny_balls", p < 1e-8)
        mon.count("balls_beyond_environment", p > 1)
        gamma = float(rng.choice([0.5, 0.1, 10 ** rng.uniform(-9, -0.05), 10 ** rng.uniform(-200, -9)]))
        case = dict(radius=r, dim=dim, failure_prob=gamma, vol=vol)
        got = float(B.compute_blumer_bound(r, dim, gamma, vol))
        pp = o_ball(dim) * mp.mpf(r) ** dim / mp.mpf(vol)
        a = 4 / pp * mp.log(2 / mp.mpf(gamma), 2)
        b = 8 * (dim + 1) / pp * mp.log(13 / pp, 2)
        mon.case(tuple(case.values()))
        mon.count("first_term_rules", a > b)
        mon.count("second_term_rules", b > a)
        mon.expect(within(got, max(a, b), 1e-8), "not-the-stated-expression", got=got, want=float(max(a, b)), **case)
        s = 1 + float(10 ** rng.uniform(-4, 0.3))
        eps = 1e-8 * got
        mon.expect(B.compute_blumer_bound(r, dim, min(gamma * s, 1.0), vol) <= got + eps, "grows-with-gamma", factor=s, **case)
        mon.expect(B.compute_blumer_bound(r * s, dim, gamma, vol) <= got + eps, "grows-with-radius", factor=s, **case)
        mon.expect(B.compute_blumer_bound(r, dim, gamma, vol * s) >= got - eps, "shrinks-with-volume", factor=s, **case)
        mon.sample(dict(case, bound=got))
