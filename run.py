#!/usr/bin/env python3
"""Launcher of the checks:  run.py <property id> [quick|thorough] [--keep]

Runs /verif/checks/<id>.py in a child process with a private scratch directory (HOME,
caches, configuration, temporary files), kills it when it hangs, writes the evidence file
and turns the recorded outcome into the exit status.

exit 0  the property held on everything that was explored
exit 1  violated (a line "VIOLATION property=<id> replay=<path>" per kind of violation)
exit 2  inconclusive: a monitor was not reached, the watchdog fired, the harness crashed
"""

import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
REPO = "/repo"
WATCHDOG = {"quick": 400, "thorough": 860}
ABORTED = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
LIMIT = 870  # seconds for all attempts


def child_env(scratch, tier, seed, pace=1):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("EARTHKIT_", "MIR_", "ECKIT_", "ECCODES_", "PYTHON", "XDG_"))
        and k.lower() not in ("http_proxy", "https_proxy", "all_proxy", "ftp_proxy")
    }
    env.update(
        HOME=scratch,
        XDG_CACHE_HOME=os.path.join(scratch, ".cache"),
        ECKIT_GEO_CACHE_PATH=os.path.join(scratch, "eckit-geo"),
        MIR_CACHE_PATH=os.path.join(scratch, "mir"),
        TMPDIR=os.path.join(scratch, "tmp"),
        EARTHKIT_REGRID_CONFIG_FILE=os.path.join(scratch, "config", "config.yaml"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=os.path.join(HERE, "lib"),
        NO_PROXY="*",
        no_proxy="*",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        VERIF_SEED=str(seed),
        VERIF_TIER=tier,
        VERIF_SCRATCH=scratch,
        VERIF_PACE=str(pace),
        VERIF_HOME=HERE,
        VERIF_REPO=REPO,
    )
    return env


def known_findings(pid):
    res = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split()
                if len(w) > 3 and w[0] == "known:" and w[1] == f"property={pid}" and w[2].startswith("key="):
                    res[w[2][4:]] = " ".join(w[3:])
    return res


def aborted(pid, tier, seed, number, tail):
    why = f"a call ended the process with {signal.Signals(number).name}"
    v = dict(property=pid, key="process-aborted", message=why, cases=[tail], seed=seed, tier=tier)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(evaluations=1, distinct_nontrivial=1, rule="the calls until the process was ended", samples=[tail[-500:]]),
        assumptions=[],
    )
    return dict(complete=False, inconclusive=[why], violations=[v], evidence=ev)


def attempt(pid, tier, seed, keep, timeout, pace):
    """Runs the check once, with pace times the time it usually takes"""
    scratch = os.path.realpath(tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/tmp"))
    for d in ("tmp", "config", ".cache", "mir", "eckit-geo"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)

    log = os.path.join(scratch, "log.txt")
    timed_out = False
    try:
        with open(log, "wb") as f:
            p = subprocess.Popen(
                [PYTHON, os.path.join(HERE, "checks", f"{pid.lower()}.py")],
                stdin=subprocess.DEVNULL,
                stdout=f,
                stderr=f,
                cwd=scratch,
                env=child_env(scratch, tier, seed, pace),
                start_new_session=True,
            )
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                timed_out = True
                rc = -1
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()

        result = None
        path = os.path.join(scratch, "result.json")
        if os.path.exists(path):
            with open(path) as f:
                result = json.load(f)

        with open(log, errors="replace") as f:
            tail = f.read()[-3000:]
    finally:
        if keep:
            print("scratch kept:", scratch)
        else:
            # a check may leave unreadable directories behind
            subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(scratch, ignore_errors=True)
    return result, rc, timed_out, tail


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    keep = "--keep" in sys.argv
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    evidence = os.path.join(HERE, "evidence")
    replays = os.path.join(evidence, "replay")
    os.makedirs(replays, exist_ok=True)
    for p in glob.glob(os.path.join(replays, f"{pid}-*.json")):
        os.unlink(p)

    t0 = time.time()
    result, rc, timed_out, tail = attempt(pid, tier, seed, keep, WATCHDOG.get(tier, 400), 1)
    took = time.time() - t0
    if (result is None or not (result["complete"] or result["violations"])) and -rc not in ABORTED and LIMIT - took > max(180, took):
        # less was observed than is required, on a slow machine: again, with more time for each part
        print(f"again after {took:.0f} s: {'watchdog' if timed_out else (result or {}).get('inconclusive') or rc}", flush=True)
        result, rc, timed_out, tail = attempt(pid, tier, seed, keep, LIMIT - took, 3)

    wall = round(time.time() - t0, 3)
    if result is None and -rc in ABORTED:
        # the code under test ended the process, which no request may do
        result = aborted(pid, tier, seed, -rc, tail)
        rc = 1
    if result is None:
        why = "watchdog" if timed_out else f"harness ended with {rc}"
        print(f"INCONCLUSIVE property={pid}: {why}")
        print(tail)
        return 2

    known = known_findings(pid)
    new = []
    for v in result["violations"]:
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={pid} key={v['key']} {known[v['key']]}")
        else:
            new.append(v)

    ev = result["evidence"]
    ev["wall_s"] = wall
    ev["violations"] = len(new)
    with open(os.path.join(evidence, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for i, v in enumerate(new):
        replay = os.path.join(replays, f"{pid}-{i}.json")
        v["replay_cmd"] = f"cd {HERE} && VERIF_SEED={seed} python3 run.py {pid} {tier}"
        with open(replay, "w") as f:
            json.dump(v, f, indent=1)
        print(f"VIOLATION property={pid} replay={replay}")
        print(f"  {v['key']}: {v['message']}"[:2000])
    if new:
        return 1

    if timed_out or rc != 0 or not result["complete"]:
        print(f"INCONCLUSIVE property={pid}: timed_out={timed_out} rc={rc} {result.get('inconclusive')}")
        print(tail)
        return 2

    cov = ev["coverage"]
    print(
        f"OK property={pid} tier={tier} seed={seed} evaluations={cov['evaluations']} "
        f"distinct={cov['distinct_nontrivial']} wall={wall}s"
    )
    print("  observed: " + json.dumps(cov.get("observed", {}))[:1500])
    return 0


if __name__ == "__main__":
    sys.exit(main())
