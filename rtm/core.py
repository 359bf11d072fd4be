"""Monitor object handed to every check: records events, judges them, remembers witnesses.

Nothing in here looks at how the code under test is written; a check calls the real code of
REPO through its public interface and reports what it observed.
"""
import contextlib
import hashlib
import json
import os
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


def jsonable(x, depth=0):
    """Best-effort conversion of a witness to JSON."""
    if depth > 8:
        return repr(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    if hasattr(x, "tolist"):
        return jsonable(x.tolist(), depth + 1)
    return repr(x)


class StepBudgetExceeded(Exception):
    """Raised inside the code under test once it has executed more lines than the budget."""


class FailFast(BaseException):
    """Ends a shard at its first violation (only when VERIF_FAILFAST is set, for trying out many changes)."""


class Mon:
    MAX_WITNESSES = 12

    def __init__(self, pid, tier, seed, shard, nshards, scratch, journal=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.shard, self.nshards, self.scratch = shard, nshards, scratch
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.n_violations = 0
        self.inconclusive = []
        self._journal = journal
        self._t0 = time.monotonic()
        self.soft_limit = 1e9

    # -- randomness ---------------------------------------------------------------------
    def rng(self, *tags):
        import numpy as np
        h = hashlib.sha256(repr((self.pid, self.seed, self.shard) + tags).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:16], "little"))

    def shared_rng(self, *tags):
        """Same stream in every shard (for workloads that are split by index)."""
        import numpy as np
        h = hashlib.sha256(repr((self.pid, self.seed) + tags).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:16], "little"))

    def n(self, quick, thorough):
        """Per-shard case count for the current tier, `quick`/`thorough` being totals."""
        tot = quick if self.tier == "quick" else thorough
        return max(1, -(-tot // self.nshards))

    def mine(self, i):
        return i % self.nshards == self.shard

    def hurry(self):
        """True once the shard has used its soft time allowance (workloads then stop early)."""
        return time.monotonic() - self._t0 > self.soft_limit

    # -- events -------------------------------------------------------------------------
    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + int(k)

    def peak(self, name, v):
        name = "max_" + name
        v = float(v)
        if v > self.counters.get(name, float("-inf")):
            self.counters[name] = v

    def case(self, key, nontrivial=True, n=1):
        """One evaluation; `key` identifies the case for distinct counting."""
        self.evaluations += n
        if nontrivial:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def cases(self, keys_array, nontrivial_mask=None):
        """Vectorised case(): rows of an array are the cases."""
        import numpy as np
        a = np.ascontiguousarray(np.asarray(keys_array, dtype=float))
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        self.evaluations += a.shape[0]
        for i in range(a.shape[0]):
            if nontrivial_mask is None or nontrivial_mask[i]:
                self.keys.add(hashlib.blake2b(a[i].tobytes(), digest_size=8).hexdigest())

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def journal(self, **what):
        """Written before a call into native code, so that a crash can be attributed."""
        if self._journal:
            with open(self._journal, "w") as f:
                json.dump(jsonable(what), f)

    # -- verdicts -----------------------------------------------------------------------
    def violate(self, kind, **detail):
        self.n_violations += 1
        if sum(1 for v in self.violations if v["kind"] == kind) < 4 and \
                len(self.violations) < 60:
            self.violations.append({"kind": kind, "shard": self.shard, "detail": jsonable(detail)})
        if os.environ.get("VERIF_FAILFAST") and kind not in os.environ["VERIF_FAILFAST"].split(","):
            raise FailFast()

    def expect(self, ok, kind, **detail):
        if not ok:
            self.violate(kind, **detail)
        return bool(ok)

    def undecided(self, why):
        self.inconclusive.append(str(why))

    @contextlib.contextmanager
    def guard(self, kind, allow=(), **detail):
        """Code under test must not raise (except `allow`)."""
        try:
            yield
        except allow:
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            self.violate(kind, exception=repr(e), where=repo_frames(e), **detail)

    def result(self):
        return {
            "evaluations": self.evaluations, "keys": sorted(self.keys), "samples": self.samples,
            "counters": self.counters, "violations": self.violations,
            "n_violations": self.n_violations, "inconclusive": self.inconclusive,
        }


def repo_frames(e):
    out = []
    for fr in traceback.extract_tb(e.__traceback__):
        f = os.path.realpath(fr.filename)
        if f.startswith(os.path.realpath(REPO) + os.sep):
            out.append("%s:%s %s" % (os.path.relpath(f, os.path.realpath(REPO)), fr.lineno, fr.name))
    return out[-6:]


@contextlib.contextmanager
def step_budget(max_lines):
    """Bounded progress on logical time: counts executed Python lines, not seconds."""
    m = sys.monitoring
    tool = m.PROFILER_ID
    left = [max_lines]

    def on_line(code, line):
        left[0] -= 1
        if left[0] < 0:
            m.set_events(tool, 0)
            raise StepBudgetExceeded("more than %d lines executed" % max_lines)

    m.use_tool_id(tool, "verif-step-budget")
    m.register_callback(tool, m.events.LINE, on_line)
    m.set_events(tool, m.events.LINE)
    try:
        yield left
    finally:
        m.set_events(tool, 0)
        m.register_callback(tool, m.events.LINE, None)
        m.free_tool_id(tool)
