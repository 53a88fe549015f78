"""Simulated operating system: processes, scheduler, clock and fault injection.

One Kernel is one simulated machine.  Simulated processes and their threads are
Python threads of which exactly one runs at a time; the baton is handed over only
inside `enter`, which every simulated system call goes through (and when a thread
has to wait for another one of its process).  Who runs next, what fails, when
a process dies and what the clock says is decided here and only here, from the
plan (and, while a plan is being explored, from one seeded PRNG whose choices are
recorded as explicit deviations so that the plan replays without the PRNG).
"""
import errno
import random
import _thread
import threading
import traceback
import weakref
import zlib
from signal import SIG_DFL, SIG_IGN, SIGINT, default_int_handler

from . import fs as simfs

LOCK, START = _thread.allocate_lock, _thread.start_new_thread
OP_STEP_LIMIT = 20000      # system calls one operation may make on its own
RUN_STEP_LIMIT = 400000
STALL_STEPS = 3000         # calls the others make while one process is stalled
SHORT_LIMIT = 200          # transfers one fault cuts short

CLASSES = {
    "open": {"open"},
    "read": {"read"},
    "write": {"write"},
    "trunc": {"truncate", "open_trunc"},
    "sync": {"fsync"},
    "rename": {"rename"},
    "close": {"close"},
    "lock": {"flock"},
    "stat": {"stat", "listdir", "access"},
    "dir": {"mkdir", "rmdir", "unlink", "link"},
    "creat": {"open_creat"},
    "mut": {"write", "truncate", "open_trunc", "open_creat", "rename", "unlink",
            "mkdir", "rmdir", "fsync", "link"},
}


class SimKilled(BaseException):
    """The simulated process this thread belongs to no longer exists."""


class SimStuck(BaseException):
    """An operation exceeded its step bound."""


class HarnessError(Exception):
    """Something the simulator cannot represent; never a violation."""


class OpenFiles:
    """File objects a process has open for writing, in opening order."""

    def __init__(self):
        self.refs = []

    def add(self, f):
        self.refs.append(weakref.ref(f))

    def live(self):
        return [f for f in (r() for r in self.refs) if f is not None and not f.closed]


class Proc:
    def __init__(self, kernel, sess, pid, body):
        self.kernel = kernel
        self.sess = sess
        self.pid = pid
        self.body = body
        self.image = None
        self.done = False
        self.dead = False
        self.crashed = None         # kill | power | sigint
        self.logs = []              # log files it opened
        self.handlers = {}          # signal -> what it does with it
        self.masked = set()         # signals it has blocked
        self.pending = set()        # and those that came meanwhile
        self.op = None              # operation record in flight
        self.op_steps = 0
        self.faults = []
        self.host = 0
        self.out = []
        self.files = OpenFiles()
        self.atexit = []
        self.input_fn = None
        self.stuck = False
        self.tasks = []             # its threads, the main one first


class Task:
    """One thread of a simulated process, the unit of scheduling."""

    def __init__(self, proc, n, daemon=False):
        self.proc = proc
        self.key = (proc.sess, n)
        self.id = proc.sess if n == 0 else [proc.sess, n]
        self.label = proc.sess if n == 0 else "%s.%s" % (proc.sess, n)
        self.daemon = daemon
        self.state = "run"          # run | blocked | sleep | done
        self.wait = None            # () -> bool, for blocked
        self.wake_at = None         # asleep until, or waiting no longer than
        self.wake_steps = None      # a stall ends when the others have made this many calls
        self.idle = False           # waiting for another thread, without a limit
        self.exc = None             # to be raised where it waits
        self.gone = False           # its process goes on, or ends, without it
        self.lock = LOCK()
        self.lock.acquire()
        self.over = LOCK()
        self.over.acquire()


class Kernel:
    def __init__(self, plan, rng=None):
        self.plan = plan
        self.rng = rng                          # None: pure replay of plan["sched"]
        knobs = plan.get("knobs", {})
        self.fs = simfs.SimFS(self, knobs)
        self.procs = []
        self.tasks = []
        self.by_thread = {}
        self.next_pid = 1000 + knobs.get("pid0", 0)
        self.wall = float(knobs.get("epoch", 1_700_000_000.0))
        self.mono = 1000.0
        self.tick = float(knobs.get("tick", 0.0005))
        self.sim_elapsed = 0.0
        self.steps = 0
        self.seq = 0
        self.yield_no = 0
        self.dev_in = {int(a): b for a, b in plan.get("sched", [])}
        self.dev_out = []
        self.locales = knobs.get("locales")
        self.strategy = knobs.get("strategy", ["sticky", 0.3])
        self.prio = {}
        self.crc = 0
        self.ilv = 0
        self.trace = [] if plan.get("want_trace") else None
        self.fired = {}
        self.escapes = []
        self.switches = 0
        self.main_lock = LOCK()
        self.main_lock.acquire()
        self.error = None
        self.threads = 0
        self.deadlock = None
        self.stuck = None
        self.on_mut = None
        self.on_crash = None
        self.on_exit = None
        self.active_image = None
        self.log_faults = plan.get("log_faults")
        self.log_writes = 0
        self.log_fail = 0
        self.log_bytes = 0
        self.log_rng = random.Random(knobs.get("log_seed", 0))
        self.entropy = random.Random(knobs.get("entropy", 0))
        self.power_losses = 0
        self.conflicts = 0

    # ---- time -----------------------------------------------------------
    def now(self):
        self._advance(1e-6)
        return self.wall

    def monotonic(self):
        self._advance(1e-6)
        return self.mono

    def _advance(self, d):
        self.wall += d
        self.mono += d
        self.sim_elapsed += d
        for q in self.procs:
            if q.op is not None and not q.done:
                q.op["clk"][-1][1] = self.wall

    def jump(self, d):
        self.wall += d
        for q in self.procs:
            if q.op is not None and not q.done:
                q.op["clk"].append([self.wall, self.wall])

    # ---- identity -------------------------------------------------------
    def proc(self):
        """The simulated process of the calling thread, or None in host mode."""
        t = self.by_thread.get(_thread.get_ident())
        if t is None or t.proc.host:
            return None
        return t.proc

    def task(self):
        """The simulated thread that calls, or None in host mode."""
        t = self.by_thread.get(_thread.get_ident())
        if t is None or t.proc.host:
            return None
        return t

    # ---- the system call boundary ---------------------------------------
    def enter(self, name, path="", size=0, owner=None, classes=None):
        t = self.task()
        if t is None:
            return None
        p = t.proc
        if owner is not None and owner is not p:
            if owner.dead or owner.done:
                raise SimKilled()
            return None                         # finaliser of another process
        if p.dead or t.gone:
            raise SimKilled()
        self.steps += 1
        p.op_steps += 1
        if p.op_steps > OP_STEP_LIMIT or self.steps > RUN_STEP_LIMIT:
            p.stuck = True
            self.stuck = (p.sess, p.op and p.op.get("id"))
            p.dead = True
            self.fs.process_gone(p)
            raise SimStuck()
        self._advance(self.tick)
        rec = (t.label, name, path, size)
        self.turn(t)
        self.crc = zlib.crc32(repr((rec, round(self.wall, 6))).encode(), self.crc)
        self.ilv = zlib.crc32(repr(rec).encode(), self.ilv)
        if self.trace is not None:
            self.trace.append([self.steps, t.label, p.op and p.op.get("id"), p.op_steps,
                               name, path, size, round(self.wall, 4)])
        return self._faults(t, name, path, classes)

    def sigint(self, p):
        """Ctrl-C reaches process p: what it made of it, by default a KeyboardInterrupt."""
        if SIGINT in p.masked:
            p.pending.add(SIGINT)
            return
        h = p.handlers.get(SIGINT, default_int_handler)
        if h == SIG_DFL:
            self.kill(p, "kill")
            raise SimKilled()
        if h == SIG_IGN:
            return
        if h is default_int_handler:
            raise KeyboardInterrupt()
        h(SIGINT, None)

    def _match(self, f, name, classes):
        c = f.get("c", "any")
        if c == "any":
            return True
        if c == "line":
            return False                        # World.tracing sees to it
        want = CLASSES[c]
        return name in want or bool(classes and want & set(classes))

    def _faults(self, t, name, path, classes):
        p = t.proc
        action = None
        for f in p.faults:
            if f.get("path") and f["path"] not in path:
                continue
            if not self._match(f, name, classes):
                continue
            f["seen"] = f.get("seen", 0) + 1
            hit = f["seen"] == f["n"] or (f.get("sticky") and f["seen"] > f["n"])
            if not hit:
                continue
            kind = f["k"]
            if name in ("input", "sleep") and kind in (
                    "eio", "enospc", "eacces", "emfile", "enomem", "short"):
                f["seen"] -= 1                  # neither storage nor work of a query
                continue
            if kind in ("eio", "enospc", "eacces", "emfile"):
                if kind == "enospc" and not (
                        name in ("write", "mkdir", "link", "fsync", "rename") or
                        (classes and "open_creat" in classes)):
                    f["seen"] -= 1
                    continue
                if name == "stat" and kind == "enospc":
                    continue
            self._fire(p, f, kind, name, path)
            if kind == "kill":
                if name == "write" and f.get("partial"):
                    action = ("killpartial", f["partial"])
                    continue
                self.kill(p, "kill")
                raise SimKilled()
            if kind == "power":
                if name == "write" and f.get("partial"):
                    self.fs.partial_hint = f["partial"]
                self.power_loss(f.get("seed", 0))
                raise SimKilled()
            if kind in ("sigint", "enomem"):
                exc = MemoryError()
                if kind == "sigint":
                    try:
                        self.sigint(p)
                    except KeyboardInterrupt as e:
                        exc = e
                    else:
                        continue                # deferred, ignored or dealt with
                if kind == "sigint" and t is not p.tasks[0] and p.tasks[0].state != "done":
                    p.tasks[0].exc = exc        # signals go to the main thread
                    continue
                if name == "close":             # the descriptor is gone whatever close() says
                    action = ("closeerr", exc)
                    continue
                raise exc
            if kind == "jump":
                self.jump(f.get("d", 3600.0))
                continue
            if kind == "stall":
                t.state = "sleep"
                t.wake_at = self.mono + f.get("d", 5.0)
                t.wake_steps = self.steps + STALL_STEPS
                self.turn(t)
                continue
            if kind == "short":
                if name in ("write", "read") and f["fired"] <= SHORT_LIMIT:
                    action = ("short", f.get("partial", 0.5))
                continue
            code = {"eio": errno.EIO, "enospc": errno.ENOSPC,
                    "eacces": errno.EACCES, "emfile": errno.EMFILE}[kind]
            if name == "close":
                action = ("closeerr", OSError(code, "simulated " + kind, path))
                continue
            if name == "write" and f.get("partial") and not f.get("done_partial"):
                f["done_partial"] = True
                f["n"] = f["seen"] + 1          # the continuation write fails
                action = ("short", f["partial"])
                continue
            raise OSError(code, "simulated " + kind, path)
        return action

    def _fire(self, p, f, kind, name, path):
        f["fired"] = f.get("fired", 0) + 1
        self.fired[kind] = self.fired.get(kind, 0) + 1
        key = kind + "@" + name
        self.fired[key] = self.fired.get(key, 0) + 1
        if p.op is not None:
            p.op["fired"].append([kind, name, path])
        if self.trace is not None:
            self.trace.append([self.steps, p.sess, p.op and p.op.get("id"), p.op_steps,
                               "FAULT:" + kind, path, 0, round(self.wall, 4)])

    # ---- death ----------------------------------------------------------
    def kill(self, p, why):
        p.dead = True
        p.crashed = why
        self.fs.process_gone(p)
        if self.on_crash:
            self.on_crash([p], why)

    def power_loss(self, seed):
        self.power_losses += 1
        live = [q for q in self.procs if not q.done and not q.dead]
        for q in live:
            q.dead = True
            q.crashed = "power"
            self.fs.process_gone(q)
        self.fs.power_loss(random.Random(seed))
        if self.on_crash:
            self.on_crash(live, "power")

    # ---- scheduling -----------------------------------------------------
    def runnable(self):
        out = []
        for t in self.tasks:
            st = t.state
            if st == "run":
                out.append(t)
            elif st == "done":
                continue
            elif t.proc.dead or t.gone or t.exc is not None:
                out.append(t)
            elif st == "blocked":
                if t.wait() or (t.wake_at is not None and t.wake_at <= self.mono):
                    out.append(t)
            elif t.wake_at <= self.mono or (
                    t.wake_steps is not None and self.steps > t.wake_steps):
                out.append(t)
        return out

    def _pick(self, cur):
        while True:
            r = self.runnable()
            if r:
                break
            ends = [t.wake_at for t in self.tasks if t.state in ("sleep", "blocked") and
                    t.wake_at is not None]
            if ends:
                self._advance(max(0.0, min(ends) - self.mono) + 1e-6)
                continue
            bl = [t for t in self.tasks if t.state == "blocked"]
            if not bl:
                return None
            self.deadlock = [(t.label, t.proc.op and t.proc.op.get("id")) for t in bl]
            for t in bl:
                t.proc.dead = True
                t.proc.crashed = "deadlock"
                self.fs.process_gone(t.proc)
        r.sort(key=lambda t: t.key)
        default = cur if cur in r else r[0]
        if len(r) == 1:
            return r[0]
        self.yield_no += 1
        choice = default
        if self.yield_no in self.dev_in:
            s = self.dev_in[self.yield_no]
            for t in r:
                if t.id == s:
                    choice = t
        elif self.rng is not None:
            choice = self._explore(r, default, cur)
        if choice is not default:
            self.dev_out.append([self.yield_no, choice.id])
        return choice

    def _explore(self, r, default, cur):
        kind = self.strategy[0]
        rng = self.rng
        if kind == "uniform":
            return rng.choice(r)
        if kind == "sticky":
            return rng.choice(r) if rng.random() < self.strategy[1] else default
        if kind == "pct":
            for t in r:
                if t.key not in self.prio:
                    self.prio[t.key] = rng.random() + 1.0
            if rng.random() < self.strategy[1] and cur is not None:
                self.prio[cur.key] = rng.random() * 0.5
            return max(r, key=lambda t: (self.prio[t.key], -t.key[0], -t.key[1]))
        if kind == "serial":
            return default
        if kind == "starve":                     # one session gets few turns
            others = [t for t in r if t.proc.sess != self.strategy[1]]
            if others and rng.random() < 0.95:
                return default if default in others and rng.random() < 0.7 else rng.choice(others)
            return rng.choice(r)
        raise HarnessError("strategy " + str(kind))

    def point(self, t):
        nxt = self._pick(t)
        if nxt is None:
            raise HarnessError("nothing to run")
        if nxt is not t:
            self.switches += 1
            nxt.lock.release()
            t.lock.acquire()
        self._resume(t)

    def turn(self, t):
        """Let the others run; return when it is this thread's turn again."""
        self.point(t)
        if t.proc.dead or t.gone:
            raise SimKilled()
        if t.exc is not None:
            e, t.exc = t.exc, None
            raise e

    def _resume(self, t):
        t.state = "run"
        t.wait = None
        t.wake_at = t.wake_steps = None
        t.idle = False
        p = t.proc
        if p.image is not None and self.active_image is not p.image:
            p.image.activate()
            self.active_image = p.image

    def block_until(self, cond, limit=None, idle=False):
        """Wait, at most `limit` seconds, for a condition; False when the time is over."""
        t = self.task()
        end = None if limit is None else self.mono + limit
        if not idle:
            self.conflicts += 1
        while not cond():
            if end is not None and self.mono >= end:
                return False
            t.state = "blocked"
            t.wait = cond
            t.wake_at = end
            t.idle = idle and end is None
            self.turn(t)
        return True

    def sleep(self, d):
        t = self.task()
        if t is None:
            self._advance(max(0.0, d))
            return
        self.enter("sleep")
        t.state = "sleep"
        t.wake_at = self.mono + max(0.0, d)
        self.turn(t)

    def encoding(self):
        """What the locale of the running process makes of text files."""
        p = self.proc()
        if p is None or self.locales is None:
            return "utf-8"
        return random.Random(self.locales ^ p.pid).choice(["utf-8", "iso8859-1", "cp1252", "ascii"])

    # ---- process life cycle ---------------------------------------------
    def spawn(self, sess, body):
        p = Proc(self, sess, self.next_pid, body)
        self.next_pid += 1
        self.procs.append(p)
        t = Task(p, 0)
        p.tasks.append(t)
        self.tasks.append(t)
        START(self._main, (t,))
        return p

    def spawn_thread(self, p, body, daemon):
        """A thread of a simulated process."""
        self.threads += 1
        t = Task(p, len(p.tasks), daemon)
        p.tasks.append(t)
        self.tasks.append(t)
        START(self._side, (t, body))

    def settle(self, p):
        """What an interpreter waits for before it ends: its other threads.  One that
        waits for ever for work is let go (a pool tells it to stop)."""
        if len(p.tasks) > 1:
            rest = [t for t in p.tasks[1:] if not t.daemon]
            self.block_until(lambda: all(t.state == "done" or t.idle and not t.wait() for t in rest),
                             idle=True)

    def reap(self, p):
        """End the other threads of a process, as the end of an interpreter does."""
        t = p.tasks[0]
        for x in p.tasks[1:]:
            x.gone = True
            while x.state != "done":            # it has to notice
                t.state = "blocked"
                t.wait = lambda: x.state == "done"
                x.lock.release()
                t.lock.acquire()
                self._resume(t)

    def _side(self, t, body):
        t.lock.acquire()
        self.by_thread[_thread.get_ident()] = t
        self._resume(t)
        try:
            body()
        except (SimKilled, SimStuck):
            pass
        except BaseException:
            self.error = self.error or traceback.format_exc()
        self._over(t)

    def _over(self, t):
        t.state = "done"
        self.by_thread.pop(_thread.get_ident(), None)
        nxt = self._pick(None)
        t.over.release()
        (self.main_lock if nxt is None else nxt.lock).release()

    def _main(self, t):
        p = t.proc
        t.lock.acquire()
        self.by_thread[_thread.get_ident()] = t
        threading.current_thread()._daemonic = False
        self._resume(t)
        err = None
        try:
            p.body(p)
        except SimKilled:
            pass
        except SimStuck:
            p.crashed = p.crashed or "stuck"
        except BaseException:                   # harness bug: report, never hide
            err = traceback.format_exc()
        if not p.dead:
            self.fs.process_gone(p)
            p.dead = True
        self.reap(p)
        p.host += 1
        try:
            if self.on_exit:
                self.on_exit(p, err)
        finally:
            p.done = True
            p.op = None
            self._over(t)

    def run_until_idle(self):
        nxt = self._pick(None)
        if nxt is None:
            return
        nxt.lock.release()
        self.main_lock.acquire()
        for t in self.tasks:
            t.over.acquire()
        self.procs = []
        self.tasks = []

