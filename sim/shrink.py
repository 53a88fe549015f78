"""Reduce a failing plan to a small one that still shows the same kind of violation."""
import copy
import json


def normal(plan, res):
    """The plan as executed, with the scheduler's choices written down."""
    p = copy.deepcopy(plan)
    p["sched"] = res.get("dev", [])
    return p


def size(p):
    return len(json.dumps(p))


def candidates(p):
    """Smaller plans, most promising first.  Generator of (what, plan)."""
    def cp():
        return copy.deepcopy(p)
    phs = p["phases"]
    for i in range(len(phs) - 1, -1, -1):
        if len(phs) > 1:
            c = cp()
            del c["phases"][i]
            yield c
    if p.get("sched"):
        c = cp()
        c["sched"] = []
        yield c
        n = len(p["sched"])
        step = n // 2
        while step >= 1:
            for a in range(0, n, step):
                c = cp()
                del c["sched"][a:a + step]
                yield c
            if step == 1:
                break
            step //= 2
    for i, ph in enumerate(phs):
        if ph.get("host"):
            for h in range(len(ph["host"])):
                c = cp()
                del c["phases"][i]["host"][h]
                yield c
        ss = ph.get("sessions", [])
        for j in range(len(ss) - 1, -1, -1):
            if len(ss) > 1:
                c = cp()
                del c["phases"][i]["sessions"][j]
                yield c
            if ss[j].get("delay"):
                c = cp()
                del c["phases"][i]["sessions"][j]["delay"]
                yield c
            ops = ss[j]["ops"]
            for k in range(len(ops) - 1, -1, -1):
                c = cp()
                del c["phases"][i]["sessions"][j]["ops"][k]
                yield c
        # join two sequential single-session phases into one session
    for d in range(len(p.get("init", {}).get("dbs", []))):
        c = cp()
        del c["init"]["dbs"][d]
        yield c
    if p.get("log_faults") and p["log_faults"].get("after"):
        c = cp()
        c["log_faults"]["after"] = 0
        yield c
    for path in op_paths(p):
        op = get(p, path)
        for f in range(len(op.get("faults", []))):
            c = cp()
            o = get(c, path)
            del o["faults"][f]
            if not o["faults"]:
                del o["faults"]
            yield c
            for k in ("sticky", "partial", "path"):
                if k in op["faults"][f]:
                    c = cp()
                    del get(c, path)["faults"][f][k]
                    yield c
        if "lines" in op:
            for n in range(len(op["lines"]) - 1, -1, -1):
                if op["lines"][n]["t"] != "quit":
                    c = cp()
                    del get(c, path)["lines"][n]
                    yield c
        for qpath in qpaths(op):
            q = get(op, qpath)
            if "text" in q or not isinstance(q, dict):
                continue
            for s in range(len(q["stmts"])):
                if len(q["stmts"]) > 1:
                    c = cp()
                    del get(get(c, path), qpath)["stmts"][s]
                    yield c
                st = q["stmts"][s]
                if st.get("f"):
                    c = cp()
                    get(get(c, path), qpath)["stmts"][s]["f"] = {}
                    yield c
                for a in range(len(st.get("pats", []))):
                    if len(st["pats"]) > 1:
                        c = cp()
                        del get(get(c, path), qpath)["stmts"][s]["pats"][a]
                        yield c
                    pt = st["pats"][a]
                    if len(pt["n"]) > 1:
                        for end in (0, -1):
                            c = cp()
                            x = get(get(c, path), qpath)["stmts"][s]["pats"][a]
                            del x["n"][end]
                            del x["r"][end]
                            yield c
                    for w in ("n", "r"):
                        for b, el in enumerate(pt[w]):
                            if el["p"]:
                                for kv in range(len(el["p"])):
                                    c = cp()
                                    x = get(get(c, path), qpath)["stmts"][s]["pats"][a][w][b]
                                    del x["p"][kv]
                                    if not x["p"]:
                                        x["p"] = None
                                    yield c
                            if el["h"] and not any(t["c"] == "report" for t in q["stmts"]):
                                c = cp()
                                get(get(c, path), qpath)["stmts"][s]["pats"][a][w][b]["h"] = ""
                                yield c
            for k in ("lead", "tail"):
                if q.get(k):
                    c = cp()
                    get(get(c, path), qpath)[k] = ""
                    yield c
    plain = {"tick": 0.0005, "tz": "UTC", "bufsize": 8192, "chunk": 8192, "dir_order": 0, "sector": 512,
             "entropy": 0, "log_seed": 0, "pid0": 0, "epoch": 1_700_000_000.0}
    for k, v in list(p.get("knobs", {}).items()):
        if k == "strategy":
            continue
        c = cp()
        if k in plain:
            if v == plain[k]:
                continue
            c["knobs"][k] = plain[k]
        else:
            del c["knobs"][k]
        yield c
    for path in op_paths(p):
        op = get(p, path)
        for f, x in enumerate(op.get("faults", [])):
            for n in (1, x["n"] // 2, x["n"] - 1):
                if 1 <= n < x["n"]:
                    c = cp()
                    get(c, path)["faults"][f]["n"] = n
                    yield c


def op_paths(p):
    for i, ph in enumerate(p["phases"]):
        for j, s in enumerate(ph.get("sessions", [])):
            for k, op in enumerate(s["ops"]):
                yield ("phases", i, "sessions", j, "ops", k)
                for n in range(len(op.get("lines", []))):
                    yield ("phases", i, "sessions", j, "ops", k, "lines", n)


def qpaths(op):
    if isinstance(op.get("q"), dict):
        yield ("q",)


def get(o, path):
    for x in path:
        o = o[x]
    return o


def order(c):
    """Prefer fewer events, then less text, then a simpler fault position."""
    n = 0
    ns = 0
    for path in op_paths(c):
        o = get(c, path)
        n += 1
        for f in o.get("faults", []):
            n += 1
            ns += f["n"]
    return (len(c["phases"]) + n + len(c.get("sched", [])), size(c), ns, json.dumps(c, sort_keys=True))


def shrink(plan, test, deadline, now):
    """`test(plan)` -> (executed plan, reshuffled?) with the same kind of violation, or None."""
    best = plan
    tried = 0
    seen = set()
    again = True
    while again and now() < deadline:
        again = False
        for c in candidates(best):
            if now() > deadline:
                break
            key = json.dumps(c, sort_keys=True)
            if key in seen or order(c) >= order(best):
                continue
            seen.add(key)
            tried += 1
            r = test(c)
            if r is None:
                continue
            if order(r[0]) < order(best):
                best = r[0]
            elif not r[1]:                      # (c itself was run, not a reshuffled c)
                best = c
            else:
                continue
            again = True
            break
    return best, tried
