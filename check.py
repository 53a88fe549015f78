#!/opt/venv/bin/python
"""Decide one property by simulation, or replay a recorded violation.

  check.py --property C02 [--tier quick|thorough] [--seed N] [--secs S] [--runs N]
  check.py --replay FILE

Exit 0: the property held on everything explored.  Exit 1: a violation (a line
"VIOLATION property=<id> replay=<path>").  Exit 2: the machinery itself failed.
"""
import argparse
import json
import os
import re
import select
import subprocess
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JOBS = 8
BATCH = 40
QUICK = {"runs": 12000, "secs": 80}
THOROUGH = {"runs": 10 ** 9, "secs": 720}
SHRINK = {"quick": 40, "thorough": 120}


class Worker:
    def __init__(self, idx, hashseed):
        self.idx, self.hashseed = idx, hashseed
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", TZ="UTC",
                   LC_ALL="C.UTF-8", PYTHONUTF8="1")
        env.pop("PYTHONPATH", None)
        repo = os.environ.get("VP_REPO", "/repo")
        code = "import sys; sys.path.insert(0, %r); from sim import explore; explore.main()" % HERE
        self.p = subprocess.Popen([PY, "-B", "-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, cwd=repo, env=env)
        os.set_blocking(self.p.stderr.fileno(), False)
        self.buf = b""
        self.busy = False
        self.next = None

    def send(self, o):
        self.p.stdin.write((json.dumps(o) + "\n").encode())
        self.p.stdin.flush()
        self.busy = True

    def feed(self):
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            err = b""
            try:
                err = self.p.stderr.read() or b""
            except OSError:
                pass
            raise RuntimeError("worker %d ended: %s" % (self.idx, err.decode(errors="replace")[-1500:]))
        self.buf += d
        *lines, self.buf = self.buf.split(b"\n")
        return [json.loads(x) for x in lines]

    def wait(self, key, timeout=600):
        end = time.time() + timeout
        while time.time() < end:
            r, _, _ = select.select([self.p.stdout], [], [], 1.0)
            if r:
                for m in self.feed():
                    if key in m:
                        return m
        raise RuntimeError("worker %d gave no answer" % self.idx)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k.get("status") == "open"]
    except FileNotFoundError:
        return []


def known_match(prop, found):
    """A listed finding is one specific failure: its kind and its message."""
    for k in known():
        if k["property"] == prop and all(
                v["class"] == k["class"] and re.search(k["message"], v["msg"]) for v in found):
            return k
    return None


def real_vs_stub():
    return {
        "real": ["every module under wiggle_shell/, wiggle_query_language/, models/, exceptions/, "
                 "wiggle_graph_logger/ and project_root.py of the working tree, imported once per "
                 "simulated process, with the real pydantic, json, re, glob, pathlib, logging and io "
                 "buffering code above the system calls"],
        "stub": ["file system and page cache (sim/fs.py)", "process scheduler, signals and process death "
                 "(sim/kernel.py)", "clock, timezone and sleep", "terminal input and output",
                 "randomness, pids, uuids", "advisory file locks", "the log file device"],
    }


def explore(prop, tier, seed, runs, secs, jobs):
    t0 = time.time()
    deadline = t0 + secs
    ws = [Worker(j, (seed * 8 + j) % 4294967295 + 1) for j in range(jobs)]
    agg, fired, checks, classes = Counter(), Counter(), Counter(), Counter()
    ilv, states = set(), set()
    found, harness, samples, est = [], [], [], None
    try:
        for w in ws:
            est = w.wait("ready", 120)["est"]
            w.next = w.idx
        stop = False
        while True:
            for w in ws:
                if not w.busy and not stop and w.next < runs and time.time() < deadline:
                    w.send({"do": "explore", "prop": prop, "seed": seed, "from": w.next, "n": BATCH,
                            "step": jobs, "deadline": deadline})
                    w.next += BATCH * jobs
            live = [w for w in ws if w.busy]
            if not live:
                break
            r, _, _ = select.select([w.p.stdout for w in live], [], [], 120)
            if not r:
                raise RuntimeError("workers stalled")
            for w in live:
                if w.p.stdout not in r:
                    continue
                for m in w.feed():
                    if "harness" in m:
                        harness.append(m)
                    elif "sample" in m:
                        samples.append(m["sample"])
                    elif "found" in m:
                        m["worker"] = w
                        found.append(m)
                        if not known_match(prop, m["found"]):
                            stop = True
                    elif "done" in m:
                        w.busy = False
                        agg.update(m["done"])
                        fired.update(m["fired"])
                        checks.update(m["checks"])
                        classes.update(m["classes"])
                        ilv.update(m["ilv"])
                        states.update(m["states"])
            if len(harness) > 20:
                stop = True
        searched = time.time() - t0
        report = []
        found.sort(key=lambda m: m["i"])
        done = set()
        for m in found:
            k = known_match(prop, m["found"])
            if k:
                if k["id"] not in done:
                    done.add(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            cls = m["found"][0]["class"]
            if cls in done or len(report) >= 3:
                continue
            done.add(cls)
            path = write_replay(prop, tier, seed, m, cls, m["worker"])
            if path is None:
                harness.append({"harness": "run %d: violation %s did not repeat" % (m["i"], cls)})
                continue
            report.append((path, cls, m))
        for path, cls, m in report:
            print("VIOLATION property=%s replay=%s" % (prop, path))
    finally:
        for w in ws:
            w.close()
    wall = time.time() - t0
    write_evidence(prop, tier, seed, wall, searched, agg, fired, checks, classes, ilv, states, samples, est,
                   [dict(class_=cls, replay=path, message=m["found"][0]["msg"]) for path, cls, m in report],
                   harness)
    print("%s %s seed=%d: %d runs in %.1f s, %d oracle checks, %d distinct interleavings, %d faults, "
          "%d violations" % (prop, tier, seed, agg["runs"], searched, sum(checks.values()), len(ilv),
                             sum(v for k, v in fired.items() if "@" not in k), len(report)))
    if report:
        return 1
    if harness:
        for h in harness[:3]:
            print("HARNESS-ERROR run=%s %s" % (h.get("i"), str(h["harness"])[-1500:]), file=sys.stderr)
        return 2
    return 0


def write_replay(prop, tier, seed, m, cls, w):
    w.send({"do": "shrink", "prop": prop, "plan": m["plan"], "seed": m["seed"], "class": cls,
            "secs": SHRINK[tier]})
    ans = w.wait("shrunk", SHRINK[tier] + 300)
    w.busy = False
    if ans["shrunk"] is None:
        return None
    res = ans["result"]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%d-%d.json" % (prop, cls, seed, m["i"]))
    vio = [v for v in res["violations"] if v["class"] == cls]
    doc = {"property": prop, "class": cls, "hashseed": w.hashseed, "found_by": {
        "tier": tier, "seed": seed, "run": m["i"], "scheduler_seed": m["seed"]},
        "shrink_attempts": ans["tried"], "violation": vio[0] if vio else None, "plan": ans["shrunk"],
        "expect": {"crc": res.get("crc"), "tree": res.get("tree"), "violations": res.get("violations"),
                   "steps": res.get("steps")},
        "trace": res.get("trace"), "outs": res.get("outs"), "ops": res.get("ops")}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    w = Worker(0, doc["hashseed"])
    try:
        w.wait("ready", 120)
        w.send({"do": "run", "plan": dict(doc["plan"], want_trace=True), "seed": None})
        res = w.wait("result", 300)["result"]
    finally:
        w.close()
    for line in res.get("trace") or []:
        print("  step %4d session %s op %s: %s %s %s" % (line[0], line[1], line[2], line[4], line[5],
                                                       line[6] or ""))
    for v in res["violations"]:
        print("  %s: %s" % (v["class"], v["msg"]))
    if res.get("harness"):
        print("HARNESS-ERROR " + str(res["harness"]), file=sys.stderr)
        return 2
    exp = doc["expect"]
    same = res["violations"] == exp["violations"] and res.get("crc") == exp["crc"] and \
        res.get("tree") == exp["tree"] and res.get("steps") == exp["steps"]
    if any(v["class"] == doc["class"] for v in res["violations"]):
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        print("replay %s" % ("is exact" if same else "shows the violation; details differ (another tree?)"))
        return 1
    print("the recorded violation does not occur on this tree")
    return 0


def write_evidence(prop, tier, seed, wall, searched, agg, fired, checks, classes, ilv, states, samples, est,
                   violations, harness):
    kinds = {k: v for k, v in sorted(fired.items()) if "@" not in k}
    sites = {k: v for k, v in sorted(fired.items()) if "@" in k}
    runs = agg["runs"]
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(ilv),
            "rule": "One evaluation is one simulated run of a generated plan (sessions, queries, faults, "
                    "host events) under a seeded schedule. It is non-trivial if at least one oracle check "
                    "was evaluated in it, and distinct by the hash of its sequence of (session, system "
                    "call, path, size).",
            "samples": samples[:2],
            "oracle_checks": dict(sorted(checks.items())),
            "runs_per_hour": int(runs / max(searched, 1e-9) * 3600),
            "seeds_per_hour": int(runs / max(searched, 1e-9) * 3600),
            "seeds_used": runs,
            "simulated_seconds": agg["sim_ms"] / 1000.0,
            "system_calls": agg["steps"],
            "context_switches": agg["switches"],
            "lock_waits": agg["conflicts"],
            "simulated_processes": agg["procs"],
            "operations": agg["ops"],
            "queries": agg["queries"],
            "operation_outcomes": {k[3:]: v for k, v in sorted(agg.items()) if k.startswith("op-")},
            "faults_injected": kinds,
            "fault_sites": sites,
            "power_losses": {"count": agg["power"], "that_tore_data": agg["torn"],
                             "that_lost_data": agg["lost_data"],
                             "data_given_up_by_a_failed_fsync": agg["gave_up"], "that_lost_directory_changes": agg["lost_meta"]},
            "distinct_interleavings": len(ilv),
            "distinct_graph_states": len(states),
            "repeat_runs_compared_for_determinism": agg["repeats"],
            "log_writes": agg["log_writes"], "log_writes_failed": agg["log_fail"],
            "estimated_syscalls_per_operation": est,
            "observations_counting_for_other_properties_only": dict(classes),
            "components": real_vs_stub(),
            "harness_errors": len(harness),
        },
        "assumptions": [
            "power loss keeps fsynced file data and fsynced directory changes, plus any seeded part of the "
            "rest; directory changes survive in order",
            "a rename is atomic with respect to other processes",
            "flock and lockf behave as on Linux and are released when their owner dies",
            "processes interleave at system calls only; signals and failing allocations also strike between lines",
        ],
        "violations": len(violations),
    }
    if violations:
        doc["coverage"]["violations_found"] = violations
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--secs", type=float)
    ap.add_argument("--jobs", type=int, default=JOBS)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t = THOROUGH if a.tier == "thorough" else QUICK
    try:
        return explore(a.property, a.tier, a.seed, a.runs or t["runs"], a.secs or t["secs"], a.jobs)
    except RuntimeError as e:
        print("HARNESS-ERROR %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
