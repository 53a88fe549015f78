"""Worker process: executes plans read from stdin, one JSON request per line.

Requests: {"do": "explore", "prop", "seed", "from", "n"} | {"do": "run", "plan", "seed"}
        | {"do": "shrink", "prop", "plan", "class", "secs"}
"""
import copy
import json
import os
import random
import sys
import zlib
from collections import Counter

from . import plans, shrink, worker
from .patch import REAL


def now():
    return REAL["time"]()


def run(plan, seed=None):
    """One execution; for plans with log trouble, the same execution with and without it."""
    lf = plan.get("log_faults")
    if not lf:
        return worker.run_forked(plan, seed)
    calm = {k: v for k, v in plan.items() if k != "log_faults"}
    calm["want_outs"] = True
    a = worker.run_forked(calm, seed)
    if a.get("harness") or a.get("spin"):
        return a
    loud = dict(plan, want_outs=True, sched=a["dev"])
    b = worker.run_forked(loud, None)
    if b.get("harness"):
        return b
    if b.get("spin"):
        b["violations"] = [{"class": "log-outcome", "msg": "the run does not end when the log fails",
                            "op": None, "db": None, "step": 0}]
        return b
    b["steps"] += a["steps"]
    b["sim_s"] += a["sim_s"]
    b["crc"] = zlib.crc32(b"%d %d" % (a["crc"], b["crc"]))
    b["dev"] = a["dev"]
    fired = Counter(a["fired"])
    fired.update(b["fired"])
    if b["log_fail"]:
        fired["log-" + lf["k"]] += b["log_fail"]
    b["fired"] = dict(fired)
    v = list(b["violations"])
    ao = [o[1:] for o in a["ops"]]
    bo = [o[1:] for o in b["ops"]]
    # the log faults of the plan are the only difference between the two executions
    bad = None
    if ao != bo:
        i = next((i for i, (x, y) in enumerate(zip(ao, bo)) if x != y), min(len(ao), len(bo)))
        bad = ("log-outcome", "operation %d: %s with a working log, %s with a failing one" % (
            i + 1, ao[i] if i < len(ao) else "absent", bo[i] if i < len(bo) else "absent"))
    elif a["tree"] != b["tree"]:
        bad = ("log-graph", "the files differ from those left with a working log")
    if bad:
        v.append({"class": bad[0], "msg": bad[1], "op": None, "db": None, "step": b["steps"]})
    b["checks"]["log-differential"] = 1
    b["violations"] = v
    return b


def probe():
    """How many system calls a MAKE and a creation take, so that fault positions land."""
    q = {"stmts": [{"c": "make", "pats": [{"n": [
        {"h": "", "l": "A", "p": None}, {"h": "", "l": "B", "p": None}],
        "r": [{"h": "", "l": "R", "p": None, "d": ">"}]}]}]}
    plan = {"init": {"dbs": [["", "a"]]}, "knobs": {"strategy": ["serial"]}, "phases": [
        {"sessions": [{"id": 0, "ops": [{"k": "create", "db": "probe"}, {"k": "q", "db": "a", "q": q}]}]}],
        "want_trace": True}
    r = worker.run_forked(plan, None)
    c = Counter()
    for t in r.get("trace") or []:
        c[t[2]] += 1
    ids = {o[2]: o[0] for o in r.get("ops", [])}
    plans.EST["create"] = min(max(8, c.get(ids.get("create"), 40)), 400)
    plans.EST["q"] = min(max(8, c.get(ids.get("q"), 60)), 400)
    return dict(plans.EST)


def make_plan(prop, seed, i):
    r = random.Random("%s/%s/%s" % (prop, seed, i))
    plan = plans.GEN[prop](r)
    return plan, r.randint(0, 1 << 60)


def relevant(prop, res):
    cl = plans.CLASSES[prop]
    return [v for v in res.get("violations", []) if v["class"] in cl]


def explore(req, out):
    prop = req["prop"]
    agg = Counter()
    fired, checks = Counter(), Counter()
    ilv, states = set(), set()
    other = Counter()
    for i in range(req["from"], req["from"] + req["n"] * req["step"], req["step"]):
        if now() > req["deadline"]:
            break
        plan, s = make_plan(prop, req["seed"], i)
        res = run(plan, s)
        agg["runs"] += 1
        if res.get("harness"):
            out({"harness": res["harness"], "i": i, "plan": plan})
            continue
        agg["steps"] += res.get("steps", 0)
        agg["sim_ms"] += int(res.get("sim_s", 0) * 1000)
        for k in ("switches", "conflicts", "power", "torn", "lost_meta", "lost_data", "syncs", "procs",
                  "log_writes", "log_fail", "gave_up"):
            agg[k] += res.get(k, 0)
        fired.update(res.get("fired", {}))
        checks.update(res.get("checks", {}))
        agg["queries"] += sum(1 for o in res.get("ops", []) if o[2] in ("q", "line"))
        agg["ops"] += len(res.get("ops", []))
        for o in res.get("ops", []):
            agg["op-" + o[2] + "-" + o[3]] += 1
        if sum(res.get("checks", {}).values()):
            ilv.add(res["ilv"])
        states.update(res.get("states", ()))
        rel = relevant(prop, res)
        for v in res.get("violations", []):
            other[v["class"]] += 1
        if rel:
            out({"found": rel, "i": i, "plan": plan, "seed": s, "dev": res.get("dev", []),
                 "crc": res.get("crc")})
            if req.get("stop_on_find", True):
                agg["stopped"] = 1
                break
        if i < 16:                               # determinism, checked on every invocation
            again = run(plan, s)
            agg["repeats"] += 1
            a = {k: res.get(k) for k in ("crc", "tree", "dev", "violations", "steps", "ops")}
            b = {k: again.get(k) for k in ("crc", "tree", "dev", "violations", "steps", "ops")}
            if a != b:
                out({"harness": "run %d is not repeatable: %s" % (
                    i, [k for k in a if a[k] != b[k]]), "i": i, "plan": plan})
        if i == req["from"] and i < 2:
            out({"sample": {"plan": plan, "scheduler_seed": s, "ops": res.get("ops", [])[:12],
                            "fired": res.get("fired", {}), "steps": res.get("steps")}})
    out({"done": dict(agg), "fired": dict(fired), "checks": dict(checks), "ilv": sorted(ilv),
         "states": sorted(states), "classes": dict(other)})


def do_shrink(req, out):
    prop, cls = req["prop"], req["class"]
    first = run(copy.deepcopy(req["plan"]), req.get("seed"))
    if not any(v["class"] == cls for v in relevant(prop, first)):
        out({"shrunk": None})
        return
    start = shrink.normal(req["plan"], first)
    rr = random.Random(1)

    def test(plan):
        try:
            plan = copy.deepcopy(plan)
            multi = any(len(ph.get("sessions", [])) > 1 for ph in plan["phases"])
            for seed in [None] + ([rr.randint(0, 1 << 60) for _ in range(3)] if multi else []):
                p = plan if seed is None else dict(plan, sched=[])
                res = run(copy.deepcopy(p), seed)
                if res.get("harness"):
                    continue
                if any(v["class"] == cls for v in relevant(prop, res)):
                    return shrink.normal(p, res), seed is not None
        except Exception:
            return None
        return None

    best, tried = shrink.shrink(start, test, now() + req["secs"], now)
    final = run(dict(copy.deepcopy(best), want_trace=True, want_outs=True), None)
    out({"shrunk": best, "tried": tried, "result": final})


def main():
    repo = os.environ.get("VP_REPO", "/repo")
    fd = os.dup(1)
    os.dup2(2, 1)

    def out(o):
        data = (json.dumps(o) + "\n").encode()
        w = REAL["os.write"]
        while data:
            data = data[w(fd, data):]
    rd = os.fdopen(os.dup(0), "r")
    worker.boot(repo)
    out({"ready": True, "est": probe()})
    for line in rd:
        req = json.loads(line)
        if req["do"] == "explore":
            explore(req, out)
        elif req["do"] == "run":
            out({"result": run(req["plan"], req.get("seed"))})
        elif req["do"] == "shrink":
            do_shrink(req, out)
    sys.exit(0)


if __name__ == "__main__":
    main()
