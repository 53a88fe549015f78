#!/opt/venv/bin/python
"""Repeats runs in separate interpreters, in another order, and compares everything they
report: determinism.py [RUNS_PER_PROPERTY].  Prints the number of runs that differ."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CODE = """
import sys, json, hashlib
sys.path.insert(0, %r)
from sim import worker, explore, plans
from sim.patch import REAL
n, part, back, props = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] == "1", sys.argv[4].split(",")
if back:
    junk = [object() for _ in range(123457)]      # other addresses
worker.boot(%r)
explore.probe()
todo = [(p, i) for p in props for i in range(part, n, 4)]
for p, i in reversed(todo) if back else todo:
    plan, s = explore.make_plan(p, 1, i)
    r = explore.run(plan, s)
    d = hashlib.sha256(json.dumps(r, sort_keys=True, default=str).encode()).hexdigest()[:16]
    REAL["os.write"](int(sys.argv[5]), ("%%s %%d %%s\\n" %% (p, i, d)).encode())
"""


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    props = ",".join("C%02d" % i for i in range(1, 20)) + ",C22"
    procs = []
    for part in range(4):
        for back in "01":
            f = tempfile.TemporaryFile()
            env = dict(os.environ, PYTHONHASHSEED=str(part), PYTHONDONTWRITEBYTECODE="1", TZ="UTC",
                       LC_ALL="C.UTF-8", PYTHONUTF8="1")
            repo = os.environ.get("VP_REPO", "/repo")
            fd = f.fileno()
            p = subprocess.Popen([PY, "-B", "-c", CODE % (HERE, repo), str(n), str(part), back, props, str(fd)],
                                 cwd=repo, env=env, stdout=subprocess.DEVNULL,
                                 pass_fds=[fd])
            procs.append((back, f, p))
    got = {"0": {}, "1": {}}
    for back, f, p in procs:
        p.wait()
        f.seek(0)
        for line in f.read().decode().splitlines():
            prop, i, d = line.split()
            got[back][prop, i] = d
    a, b = got["0"], got["1"]
    bad = [k for k in a if a[k] != b.get(k)]
    print("%d runs, each twice; %d differ %s" % (len(a), len(bad) + abs(len(a) - len(b)), bad[:10]))
    return 1 if bad or len(a) != len(b) or not a else 0


if __name__ == "__main__":
    sys.exit(main())
