"""Runs plans, each in a forked child of a preloaded interpreter."""
import gc
import json
import os
import resource
import select
import signal
import sys

RUN_CPU_S = 20


def boot(repo="/repo", pool=10):
    import pydantic  # noqa: F401
    import pydantic.main  # noqa: F401
    from . import image, patch, world
    from .kernel import Kernel
    patch.set_repo(repo)
    sys.dont_write_bytecode = True
    os.chdir(repo)
    patch.install()
    patch.QUIET_HOST = False
    image.install()
    k = Kernel({"knobs": {"epoch": 1_500_000_000.0}})
    for d in ("/tmp", "/var/tmp", "/sim", repo + "/dbms", repo + "/testing/test_gdbms"):
        k.fs.host_mkdirs(d)
    patch.set_kernel(k)
    for _ in range(pool):
        im = image.Image()
        im.load()
        im.park()
        world.POOL.append(im)
    gc.collect()
    gc.freeze()


def _child(plan, seed, w):
    import random
    gc.disable()
    resource.setrlimit(resource.RLIMIT_CPU, (RUN_CPU_S, RUN_CPU_S + 2))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    from . import patch, world
    import threading
    threading.stack_size(16 << 20)
    patch.QUIET_HOST = True
    rng = random.Random(seed) if seed is not None else None
    try:
        out = world.run_plan(plan, rng)
    except BaseException as e:
        out = {"harness": "child: %r" % e, "violations": []}
    data = json.dumps(out).encode()
    off = 0
    while off < len(data):
        off += patch.REAL["os.write"](w, data[off:])
    os._exit(0)


def run_forked(plan, seed=None):
    """Execute in a child so that nothing leaks from one run into the next."""
    from . import patch
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _child(plan, seed, w)
        finally:
            os._exit(3)
    os.close(w)
    chunks = []
    waited = 0.0
    killed = False
    while True:
        ok, _, _ = select.select([r], [], [], 1.0)
        if not ok:
            waited += 1.0
            if waited > 90:
                os_kill = patch.REAL["os.kill"]
                os_kill(pid, signal.SIGKILL)
                killed = True
                break
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        chunks.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if chunks and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return json.loads(b"".join(chunks))
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
    if sig == signal.SIGXCPU or sig == signal.SIGKILL and not killed:
        return {"spin": True, "violations": [{"class": "spin", "msg":
                "the run used more than %d s of CPU" % RUN_CPU_S, "op": None, "db": None, "step": 0}],
                "harness": None}
    return {"harness": "child died: status %s" % st, "violations": []}
