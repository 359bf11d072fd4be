"""Runs the shards of one check, merges what their monitors observed, writes the evidence
file and gives the verdict.  Standard library only.

exit 0  held on everything observed (known findings are printed, not alarmed)
exit 1  violated: one line "VIOLATION property=<id> replay=<path>"
exit 2  no verdict: harness error, monitor never reached, or watchdog
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import registry  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
INTERP = {"venv": "/opt/venv/bin/python", "vt": "/opt/veriftools/pyvenv/bin/python"}


def known_findings(pid):
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def matches(k, v):
    """A listed finding is identified by its mechanism (`kind`) and, where given, by exact
    values of the witness."""
    if k["kind"] != v["kind"]:
        return False
    return all(v["detail"].get(f) == val for f, val in k.get("where", {}).items())


def first_violation(procs, deadline):
    """Waits for all shards, or for one that has seen a violation; then ends the others."""
    left = list(procs)
    while left and time.monotonic() < deadline:
        for t in list(left):
            if t[1].poll() is not None:
                left.remove(t)
                if os.path.exists(t[2]) and any(v["kind"] not in os.environ["VERIF_FAILFAST"].split(",") for v in json.load(open(t[2]))["violations"]):
                    for _, p, _ in left:
                        os.killpg(p.pid, signal.SIGKILL)
                    return
        time.sleep(.1)


def worker_env(spec, scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    path = [VERIF]
    path += [os.path.join(VERIF, "standins", s) for s in spec.get("standins", [])]
    path += [os.path.join(REPO, p) if p else REPO for p in spec.get("repo_path", ["", "nonasymptotic"])]
    env.update(PYTHONPATH=os.pathsep.join(path), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONWARNINGS="ignore", PYTHONFAULTHANDLER="1",
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               TMPDIR=scratch, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VERIF_REPO=REPO)
    return env


def main():
    pid = sys.argv[1]
    spec = registry.CHECKS[pid]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER"], os.environ["VERIF_SEED"] = tier, str(seed)
    t0 = time.monotonic()
    nshards = spec.get("shards", 8)
    limit = spec.get("limit_quick", 400) if tier == "quick" else spec.get("limit_thorough", 840)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = run(pid, spec, tier, seed, t0, nshards, limit, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(pid, spec, tier, seed, t0, nshards, limit, scratch):
    os.makedirs(os.path.join(scratch, "mpl"), exist_ok=True)
    env = worker_env(spec, scratch)
    procs = []
    for s in range(nshards):
        d = os.path.join(scratch, "s%d" % s)
        os.makedirs(d)
        out = os.path.join(scratch, "out%d.json" % s)
        err = open(os.path.join(scratch, "err%d" % s), "w")
        p = subprocess.Popen([INTERP[spec["interp"]], "-m", "rtm.worker", pid, str(s), str(nshards), out, d],
                             env=env, cwd=d, stderr=err, start_new_session=True)
        procs.append((s, p, out))
    deadline = t0 + limit
    merged = {"evaluations": 0, "samples": [], "counters": {}, "violations": [], "n_violations": 0}
    keys, problems = set(), []
    if os.environ.get("VERIF_FAILFAST"):
        first_violation(procs, deadline)
    for s, p, out in procs:
        try:
            rc = p.wait(timeout=max(1.0, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if rc is None:
            p.wait()
        errtxt = open(os.path.join(scratch, "err%d" % s)).read()[-3000:]
        journal = {}
        if os.path.exists(out + ".journal"):
            try:
                journal = json.load(open(out + ".journal"))
            except ValueError:
                pass
        if os.path.exists(out):
            r = json.load(open(out))
            merged["evaluations"] += r["evaluations"]
            merged["samples"] += r["samples"]
            merged["violations"] += r["violations"]
            merged["n_violations"] += r["n_violations"]
            keys.update(r["keys"])
            for k, v in r["counters"].items():
                if k.startswith("max_"):
                    merged["counters"][k] = max(v, merged["counters"].get(k, float("-inf")))
                else:
                    merged["counters"][k] = merged["counters"].get(k, 0) + v
            if r["status"] != "ok":
                problems.append("shard %d: %s" % (s, r["traceback"]))
            problems += ["shard %d: %s" % (s, w) for w in r["inconclusive"]]
        elif rc is None:
            problems.append("shard %d: watchdog after %ds (last: %s)" % (s, limit, json.dumps(journal)[:400]))
        elif rc < 0 and spec.get("crash_is_violation"):
            merged["violations"].append({"kind": "native-crash", "shard": s, "detail": {
                "signal": -rc, "last_call": journal, "stderr": errtxt[-800:]}})
            merged["n_violations"] += 1
        else:
            problems.append("shard %d: ended %s without a result; %s" % (s, rc, errtxt))
    for name, least in spec.get("require", {}).items():
        if merged["counters"].get(name, 0) < least:
            problems.append("monitor saw %s=%s, needs at least %s" % (name, merged["counters"].get(name, 0), least))

    listed = known_findings(pid)
    fresh, hit = [], {}
    for v in merged["violations"]:
        k = next((k for k in listed if matches(k, v)), None)
        if k is None:
            fresh.append(v)
        else:
            hit[k["id"]] = k
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = None
    if fresh:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s.json" % pid)
        with open(replay, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier,
                       "rerun": "cd %s && VERIF_SEED=%d bash run.sh %s %s" % (VERIF, seed, pid, tier),
                       "witnesses": fresh}, f, indent=1)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": registry.LEVEL,
        "coverage": {
            "evaluations": merged["evaluations"], "distinct_nontrivial": len(keys),
            "rule": spec["rule"], "samples": merged["samples"][:8],
            "observed": {k: (int(v) if float(v).is_integer() else v) for k, v in sorted(merged["counters"].items())},
            "shards": nshards, "known_findings_seen": sorted(hit),
            "inconclusive": problems[:5],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fresh),
    }
    tmp = os.path.join(evdir, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))

    print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs" % (
        pid, tier, seed, merged["evaluations"], len(keys), len(fresh), ev["wall_s"]))
    if fresh:
        for v in fresh[:3]:
            print("  witness %s: %s" % (v["kind"], json.dumps(v["detail"])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if problems:
        for q in problems[:3]:
            print("INCONCLUSIVE %s" % q)
        return 2
    if merged["evaluations"] == 0 or not keys:
        print("INCONCLUSIVE nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    main()
