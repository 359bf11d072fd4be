"""Runs the experiment scripts as they are, each in a forked process, with crash injection at observable events.

A script sees its own argv, working directory and PATH.  Events are: a file opened for writing, a rename, a removal
(interpreter audit events) and every line written into a result table.  At the chosen event the process either ends
at once (as if killed) or receives KeyboardInterrupt.
"""
import json
import os
import runpy
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
EXPS = os.path.join(REPO, "exps")


class Result:
    def __init__(self, d):
        self.code, self.events, self.made, self.error = d["code"], d["events"], d["made"], d.get("error")
        self.extra = d.get("extra")


def run(script, argv, cwd, crash_at=None, mode="kill", prepare=None, collect=None, env=None):
    """code: 0 normal end, 77 crash injected, else failure.  made: files opened for writing."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        state = {"code": 1, "events": 0, "made": []}
        os.close(r)

        def report():
            data = json.dumps(state).encode()
            while data:
                data = data[os.write(w, data):]

        def event(what):
            state["events"] += 1
            if crash_at is not None and state["events"] == crash_at:
                state["code"] = 77
                state["error"] = "crash at " + what
                if mode == "kill":
                    live[0] = False
                    report()
                    os._exit(77)
                raise KeyboardInterrupt

        live = [False]

        def hook(name, args):
            if not live[0]:
                return
            if name == "open":
                path, _, flags = args
                if isinstance(path, (str, bytes)) and (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                    p = os.path.realpath(os.fsdecode(path))
                    if p.startswith("/dev/"):
                        return
                    if p not in state["made"]:
                        state["made"].append(p)
                    event("open " + p)
            elif name in ("os.rename", "os.remove"):
                event(name)
        try:
            try:
                os.chdir(cwd)
                os.environ.update(env or {})
                sys.argv = [script] + [str(a) for a in argv]
                import pandas
                pandas.ON_ROW = lambda path, k: event("row %d of %s" % (k, path))
                extra = prepare() if prepare else None
                sys.addaudithook(hook)
                live[0] = True
                runpy.run_path(os.path.join(EXPS, script), run_name="__main__")
                state["code"] = 0
            except SystemExit as e:
                state["code"] = 0 if not e.code else (e.code if isinstance(e.code, int) else 1)
            except KeyboardInterrupt:
                state["code"] = 77
            except BaseException as e:  # noqa: BLE001
                import traceback
                state["error"] = "".join(traceback.format_exception(e))[-1500:]
                state["code"] = 2
            live[0] = False
            if collect:
                state["extra"] = collect(extra)
            report()
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    return Result(json.loads(b"".join(chunks)))


def sweep(res, keep):
    """Removes what a crashed run left in the repository's temporary directory."""
    for p in res.made:
        if os.path.exists(p) and not p.startswith(os.path.realpath(keep) + os.sep):
            os.remove(p)


def table(path):
    import pandas as pd
    df = pd.read_csv(path, index_col=0)
    return df.to_dict("records")


def canon(rows, drop=("build_time", "check_time")):
    out = []
    for r in rows:
        out.append(tuple(sorted((k, "nan" if v != v else v) for k, v in r.items() if k not in drop)))
    return sorted(out, key=repr)
