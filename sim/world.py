"""Execute one plan: build the machine, run its sessions, let the judge watch."""
import json
import logging
import os
import sys
import time as _time
import traceback
from collections import Counter
from pathlib import Path

from . import image as simimage
from . import judge as simjudge
from . import lang, lines, patch
from .judge import HARD
from .kernel import HarnessError, Kernel, SimKilled, SimStuck

POOL = []
EMPTY_INDEX = {"node_relationships": {}, "node_labels": [], "relationship_names": []}


PILE = 12


class SelfExit(Exception):
    pass


class World:
    def __init__(self, plan, rng=None):
        self.plan = plan
        self.k = Kernel(plan, rng)
        self.fs = self.k.fs
        self.j = simjudge.Judge(self)
        self.active = []
        self.ops = []
        self.harness = None
        self.next_op = 0
        self.procs_run = 0
        self.wipes = {}
        patch.set_kernel(self.k)
        patch.reseed(self.k)
        tz = plan.get("knobs", {}).get("tz", "UTC")
        os.environ["TZ"] = tz
        _time.tzset()
        self.k.on_mut = self.on_mut
        self.k.on_crash = self.on_crash
        self.k.on_exit = self.on_exit
        for d in ("/tmp", "/var/tmp", "/sim", "/sim/other", patch.REPO + "/testing/test_gdbms"):
            self.fs.host_mkdirs(d)
        init = plan.get("init", {})
        if init.get("dbms_dir", True):
            self.fs.host_mkdirs(patch.REPO + "/dbms")
        for root, name in init.get("dbs", []):
            root = self.root(root)
            self.fs.host_mkdirs(root + "/" + name)
            d = self.j.db(root, name)
            d.st = "live"
            self.fs.host_write(d.path["database"], b"{}")
            self.fs.host_write(d.path["indexes"], json.dumps(EMPTY_INDEX).encode())
            self.fs.host_write(d.path["wn"], b"%d" % init.get("wn0", 0))
        for name in init.get("stray", []):
            self.fs.host_write(patch.REPO + "/dbms/" + name, b"not a DBMS\n")
        for name in init.get("stray_dirs", []):
            self.fs.host_mkdirs(patch.REPO + "/dbms/" + name)
            self.fs.host_write(patch.REPO + "/dbms/" + name + "/x.pyc", b"not a DBMS\n")
        self.strays = set(init.get("stray", [])) | set(init.get("stray_dirs", []))
        self.fs.sync_all()

    def root(self, r):
        return {"": patch.REPO + "/dbms", "o": "/sim/other"}.get(r, r)

    def db(self, op):
        return self.j.db(self.root(op.get("dir", "")), op["db"])

    def wiping(self, d):
        """The stores of d that are being wiped (with confirmation) at this moment."""
        return self.wipes.get(d.dir, ())

    # ---- hooks -------------------------------------------------------------------
    def on_mut(self, path):
        p = self.k.proc()
        if p is None:
            return
        op = p.op
        oid = op and op["id"]
        tg = (op or {}).get("targets", ())
        ok = path.startswith(("/tmp/", "/var/tmp/")) or any(
            path == t or path.startswith(t + "/") for t in tg)
        if not ok and tg:
            # private work files next to the target are fine, other people's files are not
            for t in tg:
                base = t.rsplit("/", 1)[0]
                if path == base:
                    ok = True
                elif path.startswith(base + "/"):
                    first = path[len(base) + 1:].split("/", 1)[0]
                    known = (base + "/" + first) in self.j.dbs and \
                        self.j.dbs[base + "/" + first].st != "absent"
                    ok = ok or (not known and first.startswith((".", "_")))
        if op is not None and op.get("reads"):
            self.j.bad("find-wrote", "%s touched %s" % (op["op"]["k"], path), oid)
        elif not ok:
            self.j.bad("foreign-write", "%s changed %s" % (
                op and op["op"].get("k"), path), oid)
        d = self.owner(path)
        if d is not None:
            self.j.instant(d, path, oid)

    def owner(self, path):
        parts = path.rsplit("/", 1)
        return self.j.dbs.get(parts[0])

    def on_crash(self, procs, why):
        if why == "power":
            for o in self.active:
                o["powered"] = True
            self.j.power()

    def on_exit(self, p, err):
        if err and not self.harness:
            self.harness = err
        for rec in [o for o in self.active if o["proc"] is p][::-1]:
            self.close(rec, "crashed", why=p.crashed)
        p.op = None

    # ---- operation records -----------------------------------------------------------
    def open_rec(self, p, op, targets=()):
        self.next_op += 1
        k = self.k
        rec = {"id": self.next_op, "sess": p.sess, "op": op, "status": "running", "err": None,
               "clk": [[k.wall, k.wall]], "fired": [], "out": "", "out0": len(p.out),
               "targets": list(targets), "start": k.steps, "proc": p}
        self.ops.append(rec)
        self.active.append(rec)
        return rec

    def begin(self, p, rec, faults=()):
        p.op = rec
        p.op_steps = 0
        p.faults = [dict(f) for f in faults]

    def close(self, rec, status, err=None, why=None):
        if rec["status"] != "running":
            return
        p = rec["proc"]
        rec["status"] = status
        rec["err"] = err
        rec["why"] = why
        rec["end"] = self.k.steps
        rec["out"] = "".join(p.out[rec["out0"]:])
        if rec in self.active:
            self.active.remove(rec)
        fin = rec.pop("fin", None)
        if fin:
            fin(rec)

    # ---- sessions -----------------------------------------------------------------------
    def session(self, s):
        def body(p):
            k = self.k
            if s.get("delay"):
                k.sleep(s["delay"])
            self.procs_run += 1
            if self.plan.get("knobs", {}).get("fresh_import") or not POOL:
                img = simimage.Image()
                p.image = img
                k.active_image = img
                img.load()
            else:
                img = POOL.pop()
                p.image = img
                img.activate()
                k.active_image = img
            p.atexit = list(img.atexit)
            try:
                for op in s["ops"]:
                    self.run_op(p, img, op)
                self.exit_process(p)
            except SelfExit:
                self.exit_process(p)
        return body

    def exit_process(self, p):
        """What an interpreter does when it ends: atexit handlers, then open files."""
        rec = self.open_rec(p, {"k": "exit"}, p.touched if hasattr(p, "touched") else ())
        held = self.fs.held(p) + sum(x() is not None and not x().closed for x in p.logs)
        if held > PILE:
            self.j.bad("pile-open", "a session that did nothing for the moment has %d files open" % held, rec["id"])
        self.begin(p, rec)
        self.k.settle(p)
        for f, a, kw in reversed(p.atexit):
            try:
                f(*a, **kw)
            except (SimKilled, SimStuck):
                raise
            except BaseException:
                pass
        self.k.reap(p)
        for f in p.files.live():
            try:
                f.close()
            except (SimKilled, SimStuck):
                raise
            except BaseException:
                pass
        p.op = None
        self.close(rec, "ok")

    def run_op(self, p, img, op):
        fn = getattr(self, "op_" + op["k"], None)
        if fn is None:
            raise HarnessError("op " + op["k"])
        if op["k"] in ("jump", "sleep", "until", "shell", "loglevel"):
            fn(p, img, op)
            return
        rec = self.open_rec(p, op)
        call = fn(p, img, op, rec)
        if not hasattr(p, "touched"):
            p.touched = []
        p.touched.extend(rec["targets"])
        self.guarded(p, rec, op.get("faults", ()), call)
        if rec["status"] == "crashed" and op.get("exit_on_int") or \
                any(f[1] == "line" for f in rec["fired"]):
            raise SelfExit()

    def guarded(self, p, rec, faults, call):
        self.begin(p, rec, faults)
        struck = [f for f in p.faults if f.get("c") == "line" and rec["op"]["k"] != "shell"]
        try:
            try:
                if struck:
                    sys.settrace(lines.Lines(self.k, p, struck, patch.REPO + "/"))
                rec["ret"] = call()
            finally:
                if struck:
                    sys.settrace(None)
            if p.dead:
                raise SimKilled()
        except (SimKilled, SimStuck):
            raise
        except KeyboardInterrupt as e:
            p.faults, p.op = [], None
            del e
            self.close(rec, "crashed", why="sigint")
            return
        except BaseException as e:
            err = [type(e).__name__, str(e)]
            if isinstance(e, HarnessError):
                raise
            tb = e.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            if tb is not None and "/sim/" in tb.tb_frame.f_code.co_filename and \
                    not isinstance(e, (OSError, MemoryError, ValueError, EOFError)):
                err.append("".join(traceback.format_exception(e))[-1500:])
                if self.harness is None and tb.tb_frame.f_code.co_filename.startswith(
                        os.path.dirname(__file__)):
                    self.harness = err[-1]
            p.faults, p.op = [], None
            del e
            self.close(rec, "raised", err)
            return
        p.faults, p.op = [], None
        self.close(rec, "ok")

    # ---- queries --------------------------------------------------------------------------
    def paths(self, img, d):
        return img.models.GDBMSFilePath(database_file_path=Path(d.path["database"]),
                                        indexes_file_path=Path(d.path["indexes"]),
                                        wiggle_number_file_path=Path(d.path["wn"]))

    def op_q(self, p, img, op, rec):
        d = self.db(op)
        q = op["q"]
        self.q_setup(rec, d, q)
        text = lang.render(q)
        g = self.paths(img, d)
        return lambda: img.query_mod.query(text, g)

    def q_setup(self, rec, d, q):
        rec["dbkey"] = d.dir
        rec["targets"] = [d.dir]
        if not q.get("refuse") and not lang.makes(q):
            rec["reads"] = True
        if d.st != "live":
            d.used = True
        self.j.query_start(rec, d, q)
        for o in self.active:
            if "late" in o and o.get("dbkey") == d.dir:
                o["late"].append(rec["comps"])
        rec["fin"] = lambda r: self.j.query_end(r, d, q)

    def op_load(self, p, img, op, rec):
        d = self.db(op)
        rec["dbkey"] = d.dir
        rec["reads"] = True
        rec["st0"] = d.st
        rec["firm0"] = [Counter(a) for a in d.alts]
        rec["late"] = [c for c in d.inflight.values()]
        rec["hazy"] = set(self.wiping(d))
        what = op.get("what", "database")
        path = Path(d.path["database" if what == "database" else "indexes"])

        def fin(r):
            hard = any(f[0] in HARD for f in r["fired"])
            if r["status"] == "raised" and not hard and r["st0"] == "live" == d.st and not d.damaged:
                self.j.bad("reader-view", "loading the %s raised %s: %s" % (
                    what, r["err"][0], r["err"][1][:100]), r["id"], d)
            if r["status"] == "ok":
                if what == "database":
                    self.j.view_check(r, d, r["ret"])
                else:
                    self.index_view(r, d, what, r["ret"])
            r.pop("ret", None)
        rec["fin"] = fin
        if what == "database":
            return lambda: img.database.load_database(path)
        if what == "labels":
            return lambda: img.labels.load_node_labels_index(path)
        if what == "names":
            return lambda: img.relnames.load_relationship_names_index(path)
        return lambda: img.rels.load_node_relationships_index(path)

    def index_view(self, rec, d, what, got):
        """An index loaded while others write covers what was acknowledged before."""
        if rec["st0"] != "live" or d.st != "live" or d.damaged or d.broken or what in d.wiped \
                or rec["hazy"] & {what, "database"}:
            return
        self.j.checks["view"] += 1
        for firm in rec["firm0"]:
            want = set()
            for ns, rs in firm:
                if what == "labels":
                    want |= {n[0] for n in ns}
                elif what == "names":
                    want |= {r[2] for r in rs if r[2]}
            if what in ("labels", "names") and want <= set(got):
                return
            if what == "rels":
                need = sum(v * len(rs) for (ns, rs), v in firm.items())
                if sum(len(x) for x in got.values()) >= need:
                    return
        self.j.bad("reader-index", "loaded %s index misses acknowledged entries" % what, rec["id"], d)

    # ---- life cycle of a DBMS --------------------------------------------------------------
    def op_create(self, p, img, op, rec):
        if op.get("weird"):
            return self.weird(img, op, rec, img.select.get_new_gdbms_file_paths)
        d = self.db(op)
        self.create_setup(rec, d)
        root = Path(d.root)
        if op.get("via") == "input":
            p.input_fn = self.script(iter(list(op.get("before", [])) + [op["db"]]), root=d.root)
            return lambda: img.select.create_new_dbms(path_to_dbms_dir=root)
        if op.get("default") and d.root == patch.REPO + "/dbms":
            return lambda: img.select.get_new_gdbms_file_paths(op["db"])
        return lambda: img.select.get_new_gdbms_file_paths(op["db"], root)

    def op_part(self, p, img, op, rec):
        """Create one of the files of a DBMS that exists: refused, and nothing changes."""
        d = self.db(op)
        fn = {"database": img.select.create_new_database, "indexes": img.select.create_new_indexes_file,
              "wn": img.select.create_new_wiggle_number_file}[op["store"]]
        rec["dbkey"] = d.dir
        rec["reads"] = True
        live = d.st == "live" and not d.damaged and not d.deleters
        rec["raw0"] = [self.j.raw(d, s) for s in ("database", "indexes", "wn")]
        alone = not any(o is not rec and o.get("dbkey") == d.dir for o in self.active)

        def fin(r):
            if not live or d.st != "live" or not alone or any(
                    o is not r and o.get("dbkey") == d.dir for o in self.ops[r["id"]:]):
                return
            self.j.checks["part"] += 1
            if r["status"] == "ok":
                self.j.bad("create-dup", "the %s file of %r was created although it exists" % (
                    op["store"], d.name), r["id"], d)
            if [self.j.raw(d, s) for s in ("database", "indexes", "wn")] != r["raw0"] and not r.get("powered"):
                self.j.bad("create-clobber", "creating the %s file of %r changed it" % (
                    op["store"], d.name), r["id"], d)
        rec["fin"] = fin
        if not live:
            return lambda: None
        return lambda: fn(d.name, Path(d.root))

    def weird(self, img, op, rec, fn):
        """A name that is no plain directory name: whatever the outcome, nothing but a
        DBMS of its own may be touched."""
        root = self.root(op.get("dir", ""))
        rec["targets"] = ["/sim/nowhere"]
        rec["strict"] = True
        name = op["db"]
        return lambda: fn(name, Path(root))

    def create_setup(self, rec, d):
        rec["dbkey"] = d.dir
        rec["targets"] = [d.dir]
        rec["st0"] = d.st
        rec["alone"] = d.creators == 0
        d.creators += 1
        d.erased = False
        rec["dels"] = d.dels
        for o in self.active:
            if o is not rec and o.get("dbkey") == d.dir:
                o["alone"] = False
                rec["alone"] = False
        rec["tree0"] = self.fs.tree(d.dir)
        rec["fin"] = lambda r: self.create_end(r, d)

    def usable(self, d):
        try:
            g = self.j.graph(d)
            self.j.index_shape(self.j.parse(d, "indexes"))
            n = self.j.parse(d, "wn")
            return g if n >= 0 else None
        except lang.Malformed:
            return None

    def create_end(self, r, d):
        d.creators -= 1
        hard = any(f[0] in HARD for f in r["fired"])
        st, j = r["status"], self.j
        j.checks["create"] += 1
        if st == "ok":
            if r["dels"] != d.dels or r["dels"][0]:
                d.st = "limbo_d"                      # deleted and made anew, in some order
                d.acked_delete = True
                return
            if r["st0"] == "live":
                if r["alone"]:
                    j.bad("create-dup", "creating %r succeeded although it exists" % d.name, r["id"], d)
                return
            if d.st == "live":
                j.bad("create-dup", "two sessions both created %r" % d.name, r["id"], d)
                return
            used = d.used or bool(d.inflight)
            self.fresh(d)
            g = self.usable(d)
            if g is None or (g.comps and not used):
                j.bad("create-incomplete", "%r was created but is not complete and empty: %s" % (
                    d.name, sorted(self.fs.tree(d.dir))), r["id"], d)
                d.broken = True
            if used:
                d.broken = True       # somebody queried it before its creator was told it is there
            got = r.get("ret")
            if got is not None:
                have = [str(got.database_file_path), str(got.indexes_file_path),
                        str(got.wiggle_number_file_path)]
                if have != [d.path["database"], d.path["indexes"], d.path["wn"]]:
                    j.bad("create-paths", "creation returned %s" % have, r["id"], d)
            r.pop("ret", None)
            return
        if r["st0"] == "live" and r["alone"]:
            if self.fs.tree(d.dir) != r["tree0"]:
                j.bad("create-clobber", "a refused creation changed the existing %r" % d.name, r["id"], d)
            return
        if d.st == "live":
            return                                    # somebody else won
        if st == "raised" and not hard and r["alone"]:
            if r["st0"] == "absent" and not self.plan.get("weird", {}).get(d.name):
                j.bad("create-refused", "creating %r raised %s: %s" % (
                    d.name, r["err"][0], r["err"][1][:80]), r["id"], d)
            elif r["st0"] == "limbo_c":
                g = self.usable(d)
                if g is None or g.comps and not d.used:
                    j.bad("create-stuck", "after a cut-short creation %r can neither be created nor used: "
                          "%s: %s; %s" % (d.name, r["err"][0], r["err"][1][:80],
                                          sorted(self.fs.tree(d.dir))), r["id"], d)
                elif not d.used:
                    self.fresh(d)
                    d.unsure = True
            return
        if st == "crashed" or hard:
            if r["st0"] in ("absent", "limbo_c"):
                d.st = "limbo_c"
        elif not r["alone"]:
            r["lost_race"] = True
            self.race.append((d, r))

    race = []

    def fresh(self, d):
        d.reset()
        d.used = d.unsure = False
        d.st = "live"

    def op_delete(self, p, img, op, rec):
        if op.get("weird"):
            return self.weird(img, op, rec, img.select.delete_gdbms)
        d = self.db(op)
        rec["dbkey"] = d.dir
        rec["targets"] = [d.dir]
        rec["st0"] = d.st
        rec["tree0"] = self.fs.tree(d.dir)
        rec["alone"] = True
        d.dels = (d.dels[0] + 1, d.dels[1] + 1)
        for o in self.active:
            if o is not rec and o.get("dbkey") == d.dir:
                rec["alone"] = o["alone"] = False

        def fin(r):
            hard = any(f[0] in HARD for f in r["fired"])
            j = self.j
            j.checks["delete"] += 1
            d.dels = (d.dels[0] - 1, d.dels[1])
            left = self.fs.find(d.dir) is not None
            if r["status"] == "ok":
                d.acked_delete = True
                if left and not r["alone"]:
                    d.st = "limbo_d"                  # made anew in the meantime
                    return
                if left and not r.get("powered"):
                    j.bad("delete-left", "deleted %r but %s remain" % (
                        d.name, sorted(self.fs.tree(d.dir))), r["id"], d)
                d.reset()
                d.st = "absent"
                d.acked_delete = True
                d.erased = r["alone"]
            elif r["status"] == "raised" and not hard and not r["alone"]:
                if d.st != "absent":                  # deleted, or deleted and made anew
                    d.st = "limbo_d"
            elif r["status"] == "raised" and not hard:
                if r["st0"] in ("live", "limbo_d") and r["tree0"]:
                    j.bad("delete-failed", "deleting %r raised %s: %s" % (
                        d.name, r["err"][0], r["err"][1][:80]), r["id"], d)
                    d.st = "limbo_d"
                elif self.fs.tree(d.dir) != r["tree0"]:
                    j.bad("foreign-write", "a refused deletion changed %s" % d.dir, r["id"], d)
            elif r["st0"] != "absent":
                d.st = "limbo_d"
        rec["fin"] = fin
        root = Path(d.root)
        return lambda: img.select.delete_gdbms(op["db"], root)

    def op_list(self, p, img, op, rec):
        root = self.root(op.get("dir", ""))
        rec["reads"] = True
        before = {d.name for d in self.j.dbs.values() if d.root == root and d.st == "live"}

        def fin(r):
            hard = any(f[0] in HARD for f in r["fired"])
            if hard or r["status"] == "crashed":
                return
            self.j.checks["list"] += 1
            if r["status"] == "raised":
                if self.fs.find(root) is not None:
                    self.j.bad("list-failed", "listing raised %s: %s" % tuple(r["err"][:2]), r["id"])
                return
            got = r.pop("ret")
            now = {d.name for d in self.j.dbs.values() if d.root == root and d.st == "live"
                   and not d.deleters}
            miss = (before & now) - set(got)
            maybe = {d.name for d in self.j.dbs.values() if d.root == root and (
                d.st != "absent" or d.acked_delete or d.creators)} | before
            ghost = set(got) - maybe - set(self.plan.get("init", {}).get("stray_dirs", []))
            if miss:
                self.j.bad("list-missing", "existing %s not listed in %s" % (sorted(miss), got), r["id"])
            if ghost:
                self.j.bad("list-ghost", "listed but never created: %s" % sorted(ghost), r["id"])
            if len(got) != len(set(got)):
                self.j.bad("list-ghost", "listed twice: %s" % got, r["id"])
            if list(got) not in (sorted(got), sorted(got, key=lambda x: (x.casefold(), x))):
                self.j.bad("list-order", "listed in the order of the folder: %s" % got, r["id"])
        rec["fin"] = fin
        return lambda: list(img.select.list_existing_dbms(path_to_dbms_dir=Path(root)))

    @staticmethod
    def menu(text):
        """Selection keys and names shown to the user (last menu wins)."""
        out = {}
        i = text.rfind("db_name")
        if i < 0:
            return out
        for line in text[i:].split("\n")[1:]:
            parts = line.split(None, 1)
            if len(parts) == 2 and parts[0].isalnum() and len(parts[0]) <= 4 and "   " in line:
                out.setdefault(parts[0], []).append(parts[1])
        return out

    def half(self, d):
        """Whether the directory of d is there with some of its files only."""
        return self.fs.find(d.dir) is not None and not all(
            self.fs.find(x) for x in d.path.values()) and not any(
            o.get("dbkey") == d.dir for o in self.active)

    def taken(self, root, x):
        """The name of a DBMS that is there for certain, or one that cannot be used."""
        d = self.j.db(root, x["taken"])
        return d.name if d.st == "live" and not d.deleters else ""

    def no_strays(self, root, m):
        if root == patch.REPO + "/dbms":
            shown = sorted({n for ns in m.values() for n in ns} & self.strays)
            if shown:
                self.j.bad("open-ghost", "%r is offered and is no DBMS" % shown[0])

    def script(self, it, must=None, root=None):
        """input() for a session: scripted lines, or picks from the menu on screen."""
        k = self.k

        def f(p, prompt):
            k.enter("input")
            try:
                x = next(it)
            except StopIteration:
                raise EOFError("end of input")
            if isinstance(x, dict) and "taken" in x:
                x = self.taken(root, x)
            elif isinstance(x, dict):
                text = "".join(p.out)
                m = self.menu(text)
                self.no_strays(root, m)
                known = {d.name for d in self.j.dbs.values()}
                keys = [a for a, names in m.items() if names == [x["pick"]]] or \
                    [a for a, names in m.items()         # a menu in columns
                     if [n.rstrip() for n in names] == [x["pick"]] and names[0] not in known]
                if x.get("half") and not (keys and self.half(self.j.db(root, x["pick"]))):
                    keys = ["zz9"]
                dup = [a for a, names in m.items() if len(names) > 1]
                if dup:
                    self.j.bad("open-keys", "selection key %s offers %s" % (dup[0], m[dup[0]]))
                if not keys:
                    if must is None or must():
                        self.j.bad("open-missing", "%r is not offered for selection: %s" % (
                            x["pick"], {a: b for a, b in list(m.items())[:6]}))
                    raise EOFError("nothing to pick")
                x = keys[0]
            p.out.append(x + "\n")
            return x
        return f

    def op_open(self, p, img, op, rec):
        """Pick an existing DBMS from the menu, by name."""
        d = self.db(op)
        rec["dbkey"] = d.dir
        rec["reads"] = True
        rec["st0"] = d.st
        lines = list(op.get("before", [])) + [{"pick": op["db"]}]
        for x in op.get("before", []):          # with no DBMS there, a wrong pick names a new one
            x = x if isinstance(x, str) else "zz9" if x.get("half") else None
            if x is not None:
                self.j.db(d.root, x).acked_delete = True
                if not any(y.root == d.root and y.st == "live" for y in self.j.dbs.values()):
                    rec["reads"] = False
                    rec["targets"] = [d.root]
        p.input_fn = self.script(iter(lines), lambda: rec["st0"] == "live" == d.st and not d.deleters and not any(
            f[0] in HARD for f in rec["fired"]), d.root)

        def fin(r):
            hard = any(f[0] in HARD for f in r["fired"])
            if hard or r["status"] == "crashed" or r["st0"] != "live" or d.st != "live":
                return
            self.j.checks["open"] += 1
            if r["status"] == "raised":
                self.j.bad("open-failed", "opening %r raised %s: %s" % (
                    d.name, r["err"][0], r["err"][1][:80]), r["id"], d)
                return
            got = r.pop("ret")
            have = [str(got.database_file_path), str(got.indexes_file_path),
                    str(got.wiggle_number_file_path)]
            if have != [d.path["database"], d.path["indexes"], d.path["wn"]]:
                self.j.bad("open-wrong", "picked %r and got %s" % (d.name, have), r["id"], d)
            m = self.menu(r["out"])
            shown = [n for ns in m.values() for n in ns]
            if len({n.strip() for n in shown}) == len(shown) and shown not in (
                    sorted(shown), sorted(shown, key=lambda x: (x.casefold(), x))):
                self.j.bad("list-order", "offered in the order of the folder: %s" % shown, r["id"], d)
            miss = [x.name for x in self.j.dbs.values()
                    if x.root == d.root and x.st == "live" and x.name not in shown and not x.creators
                    and not x.deleters]
            if miss:
                self.j.bad("open-missing", "existing %s not offered" % miss[:5], r["id"], d)
        rec["fin"] = fin
        root = Path(d.root)
        if d.root == patch.REPO + "/dbms" and op.get("default"):
            return lambda: img.select.get_existing_gdbms()
        return lambda: img.select.get_existing_gdbms(root)

    # ---- wiping -------------------------------------------------------------------------
    def op_wipe(self, p, img, op, rec):
        d = self.db(op)
        store = op["store"]
        rec["dbkey"] = d.dir
        rec["targets"] = [d.dir]
        rec["st0"] = d.st
        rec["cont0"] = self.split(d)
        rec["raw0"] = [self.j.raw(d, s) for s in ("database", "indexes", "wn")]
        sure = op["sure"]
        rec["overlap"] = False
        rec["allow"] = []
        rec["gone"] = set(d.idents)
        if sure:
            if not self.wiping(d):
                d.hazy = []
            self.wipes.setdefault(d.dir, []).append(store)
        for o in self.active:
            if o is not rec and o.get("dbkey") == d.dir:
                rec["overlap"] = True
                o["solo"] = False
                if "hazy" in o and sure:
                    o["hazy"].add(store)
                if "terms" in o:
                    rec["allow"].append(o["terms"])
                    rec["gone"] &= o["wns0"]
                if o["op"]["k"] == "wipe":
                    o["overlap"] = True
        path = Path(d.path["database" if store == "database" else "indexes"])
        fn = {"database": lambda *a: img.database.wipe_database(*a),
              "labels": lambda *a: img.labels.wipe_node_labels_index(*a),
              "rels": lambda *a: img.rels.wipe_node_relationships_index(*a),
              "names": lambda *a: img.relnames.wipe_relationship_names_index(*a)}[store]

        def fin(r):
            if sure:
                self.wipes[d.dir].remove(store)
            over = list(d.hazy)
            if r["st0"] == "live" == d.st and d.damaged and not sure and not r["overlap"]:
                now = [self.j.raw(d, s) for s in ("database", "indexes", "wn")]
                if now != r["raw0"]:
                    self.j.bad("wipe-unasked", "an unconfirmed wipe of %s changed a DBMS whose %s is damaged" % (
                        store, sorted(d.damaged)), r["id"], d)
            if r["st0"] == "live" == d.st and d.damaged and sure and store == "database" \
                    and r["status"] == "ok" and not r["overlap"] and not r.get("powered"):
                self.j.checks["wipe"] += 1
                now = self.split(d)
                if now["database"] != "{}":
                    self.j.bad("wipe-left", "the graph of a damaged DBMS was said to be wiped and holds %s" % (
                        now["database"][:40],), r["id"], d)
                elif any(now[s] != was for s, was in r["cont0"].items() if s != store):
                    self.j.bad("wipe-scope", "wiping the graph of a damaged DBMS changed another store", r["id"], d)
                else:
                    d.damaged.pop("database", None)
                    d.pure = False
                    d.alts, d.doubt = [Counter()], []
                    d.windows, d.since = {}, {}
                    for w in d.wiped.values():
                        w["since"] = {}
                return
            if r["st0"] != "live" or d.damaged:
                return
            j = self.j
            j.checks["wipe"] += 1
            hard = any(f[0] in HARD for f in r["fired"])
            now = self.split(d)
            for s, was in r["cont0"].items():
                if s == store:
                    continue
                if now[s] != was and not r.get("powered") and not r["overlap"]:
                    j.bad("wipe-scope", "wiping %s changed %s" % (store, s), r["id"], d)
            empty = {"database": "{}", "labels": "[]", "rels": "{}", "names": "[]"}[store]
            if not sure:
                if now[store] != r["cont0"][store] and not r["overlap"]:
                    j.bad("wipe-unasked", "%s changed without confirmation" % store, r["id"], d)
                if r["status"] == "raised" and not hard:
                    j.bad("wipe-failed", "unconfirmed wipe raised %s" % r["err"][:2], r["id"], d)
                return
            d.pure = False
            if r["status"] == "ok":
                if now[store] != empty and not r["overlap"]:
                    j.bad("wipe-left", "wiped %s still holds data" % store, r["id"], d)
                if store == "database":
                    d.alts = [Counter()]
                    d.doubt = list(over)
                    d.windows = {}
                    d.since = {}
                    for w in d.wiped.values():
                        w["since"] = {}
                else:
                    j.wiped_index(d, store, r)
            else:
                if r["status"] == "raised" and not hard:
                    j.bad("wipe-failed", "wipe of %s raised %s: %s" % (
                        store, r["err"][0], r["err"][1][:80]), r["id"], d)
                if now[store] not in (empty, r["cont0"][store]) and not r.get("powered") \
                        and not r["overlap"]:
                    j.bad("wipe-torn", "cut-short wipe left %s" % now[store][:80], r["id"], d)
                if store == "database":
                    if not any(not a for a in d.alts):
                        d.alts = d.alts + [Counter()]
                    d.windows = {}
                    d.since = {}
                    for w in d.wiped.values():
                        w["since"] = {}
                else:
                    j.wiped_index(d, store, r)
            if not self.active:
                j.quiet(d, "after wipe", r["id"])
        rec["fin"] = fin
        if sure or op.get("explicit"):
            return lambda: fn(path, sure)
        return lambda: fn(path)

    def split(self, d):
        out = {}
        for s, b in (("database", self.j.raw(d, "database")), ("wn", self.j.raw(d, "wn"))):
            out[s] = repr(b)
            if s == "database":
                try:
                    out[s] = json.dumps(json.loads(b), sort_keys=True)
                except Exception:
                    pass
        try:
            ix = json.loads(self.j.raw(d, "indexes"))
            out["labels"] = json.dumps(sorted(ix["node_labels"]))
            out["names"] = json.dumps(sorted(str(x) for x in ix["relationship_names"]))
            out["rels"] = json.dumps({k: sorted(v) for k, v in ix["node_relationships"].items()},
                                     sort_keys=True)
        except Exception:
            b = repr(self.j.raw(d, "indexes"))
            out["labels"] = out["names"] = out["rels"] = b
        return out

    # ---- time ----------------------------------------------------------------------------
    def op_jump(self, p, img, op):
        self.k.jump(op["d"])
        self.k.fired["jump"] = self.k.fired.get("jump", 0) + 1

    def op_sleep(self, p, img, op):
        self.k.sleep(op["d"])

    def op_until(self, p, img, op):
        """Waits for a moment of the run."""
        self.k.sleep(max(0.0, op["t"] - self.k.monotonic()))

    def op_loglevel(self, p, img, op):
        """The session turns its logging up, as a debugging user does."""
        logging.getLogger().setLevel(op["level"])

    # ---- the interactive shell ----------------------------------------------------------
    def op_shell(self, p, img, op):
        """Runs start_wiggle_shell on a scripted terminal."""
        j, k = self.j, self.k
        d = self.db(op)
        rec = self.open_rec(p, op, [d.dir])
        if not hasattr(p, "touched"):
            p.touched = []
        p.touched.append(d.dir)
        st0 = d.st
        # without any DBMS to pick, "y" leads to the prompt for a new one
        creating = op["enter"][0] not in ("y", "yes") or bool(op.get("none"))
        none = not any(x.root == d.root and x.st != "absent" for x in j.dbs.values())
        if op.get("none") and not none:
            op = dict(op, enter=["n"] + op["enter"][1:])
        if creating:
            self.create_setup(rec, d)
            cfin = rec.pop("fin")
        lines = op["lines"]
        state = {"i": -1, "sub": None, "calls": 0, "quit": False, "opened": False, "unseen": []}
        enter = list(op["enter"])

        def settle():
            """The line before this prompt has been dealt with."""
            i = state["i"]
            if i < 0 or i >= len(lines):
                return
            ln = lines[i]
            if ln["t"] == "q":
                sub = state["sub"]
                if sub["status"] == "running":
                    # the shell dealt with the line without calling query() where we look
                    if state["calls"] == 0:
                        state["unseen"].append(i)
                    if any(f[0] in HARD for f in sub["fired"]):
                        self.close(sub, "raised", ["unseen", ""])
                    else:
                        self.close(sub, "ok")
                if state["calls"] > 1:
                    j.bad("shell-twice", "line %r was executed %d times" % (
                        lang.render(ln["q"])[:80], state["calls"]), rec["id"], d)
            p.faults = []
            p.op = rec
            state["sub"] = None

        def on_query(real, a, kw):
            i = state["i"]
            sub = state["sub"]
            state["calls"] += 1
            if sub is None:
                ln = lines[i] if 0 <= i < len(lines) else None
                if ln is not None and ln["t"] == "help":
                    j.bad("shell-help", "a help line was executed as a query", rec["id"], d)
                return real(*a, **kw)
            try:
                r = real(*a, **kw)
            except (SimKilled, SimStuck):
                raise
            except KeyboardInterrupt:
                if state["calls"] == 1:
                    p.op = rec
                    self.close(sub, "crashed", why="sigint")
                raise
            except BaseException as e:
                if state["calls"] == 1:
                    p.op = rec
                    self.close(sub, "raised", [type(e).__name__, str(e)])
                raise
            if state["calls"] == 1:
                p.op = rec
                self.close(sub, "ok")
            return r

        def input_fn(p_, prompt):
            k.enter("input")
            if enter:
                x = enter.pop(0)
                if isinstance(x, dict) and "taken" in x:
                    x = self.taken(d.root, x)
                elif isinstance(x, dict) and "wrong" in x:
                    m = self.menu("".join(p.out))
                    self.no_strays(d.root, m)
                    if not m:
                        raise EOFError("nothing to pick")
                    x = x["wrong"] if x["wrong"] not in m else "#"
                elif isinstance(x, dict):
                    m = self.menu("".join(p.out))
                    self.no_strays(d.root, m)
                    keys = [a for a, names in m.items() if names == [x["pick"]]]
                    if not keys:
                        if st0 == "live" == d.st and not d.deleters:
                            j.bad("open-missing", "%r is not offered for selection" % x["pick"],
                                  rec["id"], d)
                        raise EOFError("nothing to pick")
                    x = keys[0]
                p.out.append(x + "\n")
                return x
            if not state["opened"]:
                state["opened"] = True
                if creating:
                    # the creation is over: the shell now prompts for queries
                    rec["status"] = "ok"
                    cfin(rec)
                    rec["status"] = "running"
            settle()
            state["i"] += 1
            if state["i"] >= len(lines):
                raise EOFError("end of input")
            ln = lines[state["i"]]
            state["calls"] = 0
            if ln["t"] == "quit":
                state["quit"] = True
                return "q"
            if ln["t"] == "help":
                return ln["text"]
            sub = self.open_rec(p, {"k": "line", "q": ln["q"]}, [d.dir])
            state["sub"] = sub
            self.q_setup(sub, d, ln["q"])
            self.begin(p, sub, ln.get("faults", ()))
            return lang.render(ln["q"])

        def finish(r):
            hard = any(f[0] in HARD for f in r["fired"])
            j.checks["shell"] += 1
            sub = state["sub"]
            if sub is not None and sub["status"] == "running":
                self.close(sub, "crashed" if r["status"] == "crashed" else
                           "raised", r["err"] or ["?", "?"], r["why"] if "why" in r else None)
            if creating and not state["opened"]:
                cfin(r)
            sig = any(f[0] == "sigint" for f in (sub or r)["fired"]) or r.get("why") == "sigint"
            if r["status"] == "raised" and state["opened"] and not sig:
                j.bad("shell-died", "the shell ended with %s: %s after line %d" % (
                    r["err"][0], r["err"][1][:80], state["i"]), r["id"], d)
            elif r["status"] == "raised" and not state["opened"] and not hard and (
                    creating or st0 == "live" == d.st):
                j.bad("shell-select", "selection ended with %s: %s" % (
                    r["err"][0], r["err"][1][:80]), r["id"], d)
            if r["status"] == "ok" and not state["quit"]:
                j.bad("shell-died", "the shell returned before quit, after line %d" % state["i"], r["id"], d)
            img.on_query = None
        rec["fin"] = finish
        rec["dbkey"] = None
        img.on_query = on_query
        p.input_fn = input_fn
        self.guarded(p, rec, op.get("faults", ()), img.shell.start_wiggle_shell)

    # ---- host-side events between phases -----------------------------------------------
    def host(self, h):
        j = self.j
        if h["k"] == "power":
            self.k.power_loss(h.get("seed", 0))
            self.k.fired["power"] = self.k.fired.get("power", 0) + 1
            for d in j.dbs.values():
                if d.st == "live" and not d.damaged:
                    j.quiet(d, "after power loss")
        elif h["k"] == "jump":
            self.k.jump(h["d"])
            self.k.fired["jump"] = self.k.fired.get("jump", 0) + 1
        elif h["k"] == "damage":
            d = self.db(h)
            if d.st != "live" or h["store"] in d.damaged:
                return
            orig = j.raw(d, h["store"]) or b""
            how = h["how"]
            if how == "empty":
                bad = b""
            elif how == "trunc":
                bad = orig[:max(1, int(len(orig) * h.get("f", 0.5)))]
                if h["store"] == "wn":
                    bad = b"x"
                try:
                    json.loads(bad)
                    if h["store"] != "wn":
                        bad = b"{"
                except ValueError:
                    pass
            elif how == "zeros":
                bad = b"\0" * max(1, len(orig))
            elif how == "tail":
                bad = orig + b"}"
                if h["store"] == "wn":
                    bad = orig + b" 7"
            elif how == "twice":                     # as left by a botched append
                bad = orig + orig if h["store"] != "wn" else orig + b"\n" + orig
            elif how == "bytes":
                i = int(len(orig) * h.get("f", 0.5))
                bad = orig[:i] + b"\xff\xfe\x80" + orig[i + 3:]
            elif how == "hole":                      # a lost sector
                i = int(len(orig) * h.get("f", 0.5))
                bad = orig[:i] + b"\0" * max(1, len(orig) - i)
            elif how == "word":
                bad = b"null," if h["store"] != "wn" else h.get("word", "ten").encode()
            elif how == "missing":
                bad = None
            else:
                bad = b'{"oops": [1, 2'
            d.damaged[h["store"]] = (orig, bad)
            if bad is None:
                self.fs.host_remove(d.path[h["store"]])
            else:
                self.fs.host_write(d.path[h["store"]], bad)
            self.k.fired["damage"] = self.k.fired.get("damage", 0) + 1
        elif h["k"] == "restore":
            d = self.db(h)
            for s, (orig, bad) in list(d.damaged.items()):
                self.fs.host_write(d.path[s], orig)
            d.damaged = {}
            j.quiet(d, "after restoring the damaged file")

    # ---- the run ------------------------------------------------------------------------
    def run(self):
        k, j = self.k, self.j
        self.race = []
        for ph in self.plan["phases"]:
            for s in ph.get("sessions", []):
                k.spawn(s["id"], self.session(s))
            k.run_until_idle()
            if k.active_image is not None:
                k.active_image.park()
                k.active_image = None
            for d, r in self.race:
                if d.st == "absent" and d.creators == 0:
                    j.bad("create-none", "several sessions created %r and none succeeded" % d.name,
                          r["id"], d)
            self.race = []
            for d in list(j.dbs.values()):
                d.inflight = {}
                if d.st == "limbo_c":
                    g = self.usable(d)
                    if g is not None and g.comps and not d.used:
                        j.bad("create-incomplete", "a cut-short creation left data", None, d)
                j.quiet(d, "end of phase")
                if not ph.get("nostamp"):
                    j.stamps_all(d)
            if k.deadlock:
                j.bad("deadlock", "sessions %s wait for each other for ever" % (k.deadlock,))
                break
            if k.stuck:
                j.bad("stuck", "operation %s exceeded its step bound" % (k.stuck,), k.stuck[1])
                break
            if self.plan.get("pile") and not k.deadlock:
                self.debris()
            self.harness = self.harness or k.error
            if self.harness:
                break
            for h in ph.get("host", []):
                self.host(h)
        if k.escapes:
            j.bad("escape", "tried to change %s outside the store" % (k.escapes[0],))

    def debris(self):
        """Files in the folders of DBMSs that belong to none.  A few are fine (a lock, the
        work file of the next write), one per failure is not."""
        own = set()
        for d in self.j.dbs.values():
            own |= {d.dir + "/", *d.path.values()}
        for root in {d.root for d in self.j.dbs.values()}:
            left = sorted(set(self.fs.tree(root)) - own - {root + "/"})
            left = [x for x in left if x[len(root) + 1:].split("/")[0] not in self.strays]
            self.j.checks["debris"] += 1
            if len(left) > PILE:
                self.j.bad("pile-files", "%d files that belong to no DBMS are left, such as %s" % (
                    len(left), left[-1]))

    def result(self):
        k, j = self.k, self.j
        tree = self.fs.state_hash()
        return {
            "violations": j.v, "harness": self.harness, "steps": k.steps,
            "sim_s": k.sim_elapsed, "fired": k.fired, "crc": k.crc, "ilv": k.ilv,
            "dev": k.dev_out, "switches": k.switches, "conflicts": k.conflicts,
            "states": sorted(j.states), "tree": tree, "checks": dict(j.checks),
            "power": k.power_losses, "torn": self.fs.torn, "lost_meta": self.fs.lost_meta,
            "lost_data": self.fs.lost_data, "syncs": self.fs.syncs, "procs": self.procs_run,
            "gave_up": self.fs.gave_up, "most_open": self.fs.most_open, "log_writes": k.log_writes, "log_fail": k.log_fail,
            "ops": [[o["id"], o["sess"], o["op"]["k"], o["status"],
                     (o["err"] or [""])[0], len(o["fired"])] for o in self.ops],
            "outs": [o["out"] for o in self.ops] if self.plan.get("want_outs") else None,
            "trace": k.trace,
        }


def run_plan(plan, rng=None):
    w = World(plan, rng)
    try:
        w.run()
    except HarnessError as e:
        w.harness = w.harness or "HarnessError: %s" % e
    except Exception:
        w.harness = w.harness or traceback.format_exc()
    return w.result()
