"""One shard of one check, run in its own process: worker.py PID SHARD NSHARDS OUT SCRATCH."""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


LITTER = []


def keep_tidy(repo):
    """Remembers files this process makes inside the repository (the code's temporary directory), to remove them."""
    root = os.path.realpath(repo) + os.sep

    def hook(event, args):
        if event == "open" and isinstance(args[0], str) and (args[2] or 0) & (os.O_CREAT | os.O_WRONLY | os.O_RDWR):
            p = os.path.realpath(args[0])
            if p.startswith(root) and not os.path.exists(p):
                LITTER.append(p)
    sys.addaudithook(hook)


def watch_lines(repo, where):
    """Notes which lines of the repository run (only when VERIF_COV names a folder)."""
    root, seen, mon = os.path.realpath(repo) + os.sep, set(), sys.monitoring

    def line(code, n):
        f = os.path.realpath(code.co_filename) if code.co_filename[:1] == "/" else code.co_filename
        if f.startswith(root):
            seen.add((f[len(root):], n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "rtm")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def dump():
        with open(where, "w") as f:
            json.dump(sorted(seen), f)
    return dump


def main():
    pid, shard, nshards, out, scratch = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    from rtm.core import FailFast, Mon, repo_frames, REPO
    from checks import registry
    spec = registry.CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mon = Mon(pid, tier, seed, shard, nshards, scratch, journal=out + ".journal")
    mon.soft_limit = spec.get("soft_quick", 60) if tier == "quick" else spec.get("soft_thorough", 500)
    res = {"status": "ok"}
    keep_tidy(REPO)
    dump = watch_lines(REPO, os.path.join(os.environ["VERIF_COV"], "%s.%d.json" % (pid, shard))) if os.environ.get("VERIF_COV") else None
    real_stdout = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_NOISY"):
        os.dup2(devnull, 1)  # the code under test prints a lot
    try:
        mod = importlib.import_module("checks." + spec["module"])
        getattr(mod, spec.get("fn", "run"))(mon)
    except BaseException as e:  # noqa: BLE001
        frames = repo_frames(e)
        if isinstance(e, FailFast):
            pass
        elif frames and isinstance(e, Exception) and not isinstance(e, (ImportError, MemoryError)):
            os.environ.pop("VERIF_FAILFAST", None)
            mon.violate("unexpected-exception", exception=repr(e), where=frames,
                        traceback=traceback.format_exc()[-1500:])
        else:
            res = {"status": "error", "traceback": traceback.format_exc()}
    finally:
        sys.stdout.flush()
        os.dup2(real_stdout, 1)
    if dump:
        dump()
    res.update(mon.result())
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)
    sys.stdout.flush()
    for p in LITTER:
        if os.path.exists(p):
            os.remove(p)
    os._exit(0)


if __name__ == "__main__":
    main()
