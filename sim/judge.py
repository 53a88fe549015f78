"""Reference model and oracles.

The model of one DBMS is: `firm` - what acknowledged MAKEs wrote; `doubt` - queries
that were cut short or failed by an injected fault, each of which may be in the graph
completely or not at all; `inflight` - queries running now.  Everything else is an
observation compared with it.
"""
import json
import zlib
from collections import Counter

from . import lang

STORES = ("database", "indexes", "wn")
HARD = {"kill", "power", "sigint", "enomem", "eio", "enospc", "eacces", "emfile"}


def minus(a, b):
    """a - b, or None if b is not contained in a."""
    out = Counter(a)
    for k, v in b.items():
        if out.get(k, 0) < v:
            return None
        out[k] -= v
        if not out[k]:
            del out[k]
    return out


def explained(rest, cands):
    """Can `rest` be written as the sum of a sub-list of `cands`?"""
    if not rest:
        return True
    for i, c in enumerate(cands):
        if not c:
            continue
        r2 = minus(rest, c)
        if r2 is not None and explained(r2, cands[i + 1:]):
            return True
    return False


class DB:
    def __init__(self, root, name, st):
        self.root, self.name, self.st = root, name, st
        self.dir = root + "/" + name
        self.path = {"database": "%s/database_%s.json" % (self.dir, name),
                     "indexes": "%s/indexes_%s.json" % (self.dir, name),
                     "wn": "%s/wiggle_number_%s.txt" % (self.dir, name)}
        self.creators = 0
        self.dels = (0, 0)           # deletions running, deletions begun
        self.unsure = False          # there, but no creation of it was ever acknowledged
        self.used = False            # queried while its creation had been cut short
        self.reset()

    @property
    def deleters(self):
        return self.dels[0]

    @property
    def idx_wiped(self):
        return bool(self.wiped)

    def reset(self):
        self.alts = [Counter()]
        self.doubt = []
        self.hazy = []               # acknowledged while a wipe was under way
        self.inflight = {}
        self.pure = True
        self.since = {}              # after a wipe of an index: query id -> what it made
        self.wiped = {}              # index -> what is known about it since its last wipe
        self.idents = {}
        self.created = {}
        self.labels, self.names = set(), set()
        self.damaged = {}
        self.windows = {}            # tag-free: list of (comps, clk) for created_at
        self.known_wn = {}           # wn -> query id that made it
        self.broken = False          # stop judging content after a first content violation
        self.acked_delete = False
        self.erased = False          # deleted, acknowledged, and not created since


class Judge:
    def __init__(self, world):
        self.w = world
        self.dbs = {}
        self.v = []
        self.checks = Counter()
        self.states = set()

    # ---- reporting ---------------------------------------------------------
    def bad(self, cls, msg, op=None, db=None):
        if len(self.v) < 40:
            self.v.append({"class": cls, "msg": msg, "op": op, "db": db and db.dir,
                           "step": self.w.k.steps})

    # ---- access --------------------------------------------------------------
    def db(self, root, name):
        key = root + "/" + name
        d = self.dbs.get(key)
        if d is None:
            d = self.dbs[key] = DB(root, name, "absent")
        return d

    def raw(self, d, store):
        return self.w.fs.host_read(d.path[store])

    def parse(self, d, store):
        b = self.raw(d, store)
        if b is None:
            raise lang.Malformed(store + " file is missing")
        try:
            if store == "wn":
                return int(b.decode())
            return json.loads(b.decode("utf-8"))
        except Exception as e:
            raise lang.Malformed("%s file unreadable: %s (%d bytes, %r...)" % (
                store, e, len(b), bytes(b[:40])))

    def graph(self, d):
        return lang.read_graph(self.parse(d, "database"))

    # ---- content -----------------------------------------------------------------
    def content(self, d, g, cands, firm_alts=None):
        """None if the components are firm plus whole candidate queries."""
        first = None
        for firm in (firm_alts if firm_alts is not None else d.alts):
            rest = minus(g.comps, firm)
            if rest is None:
                miss = firm - g.comps
                first = first or ("lost", "missing %d of %d acknowledged components, e.g. %s" % (
                    sum(miss.values()), sum(firm.values()), short(next(iter(sorted(miss))))))
                continue
            if explained(rest, cands):
                return None
            first = ("extra", "%d stored components belong to no whole query, e.g. %s" % (
                sum(rest.values()), short(next(iter(sorted(rest))))))
        return first

    def instant(self, d, path, op):
        """A live file of an established DBMS just changed."""
        if d.st != "live" or d.damaged or d.broken or d.deleters:
            return
        self.checks["instant"] += 1
        try:
            if path == d.path["database"]:
                g = self.graph(d)
                self.idents(d, g, op, False)
                alts = d.alts + [Counter()] if "database" in self.w.wiping(d) else d.alts
                r = self.content(d, g, d.doubt + list(d.inflight.values()), alts)
                if r:
                    self.bad("inst-" + r[0], r[1], op, d)
            elif path == d.path["indexes"]:
                self.index_shape(self.parse(d, "indexes"))
        except lang.Malformed as e:
            cls = "inst-unreadable" if "unreadable" in str(e) or "missing" in str(e)[:30] else "inst-inconsistent"
            self.bad(cls, str(e), op, d)

    @staticmethod
    def index_shape(ix):
        try:
            dict(ix["node_relationships"])
            list(ix["node_labels"])
            list(ix["relationship_names"])
        except Exception as e:
            raise lang.Malformed("indexes file unreadable: %s %s" % (type(e).__name__, e))

    def idents(self, d, g, op, quiet):
        if g.dup:
            self.bad("wn-dup", "wiggle numbers %s used more than once" % sorted(set(g.dup))[:5], op, d)
        for wn, (ident, created, updated) in g.items.items():
            old = d.idents.get(wn)
            if old is None:
                d.idents[wn] = ident
                d.created[wn] = created
            elif old != ident:
                self.bad("wn-reuse", "wiggle number %s was %s and is now %s" % (wn, old, ident), op, d)
                d.idents[wn] = ident
            elif d.created.get(wn) != created:
                self.bad("created-changed", "wiggle number %s: created_at was %r, is now %r" % (
                    wn, d.created.get(wn), created), op, d)
                d.created[wn] = created
            if updated is not None:
                self.bad("updated-set", "wiggle number %s carries update time %r" % (wn, updated), op, d)

    def quiet(self, d, why, op=None):
        """No operation is running on this DBMS."""
        if d.st != "live" or d.damaged or d.broken or d.inflight:
            return None
        self.checks["quiet"] += 1
        try:
            g = self.graph(d)
        except lang.Malformed as e:
            m = str(e)
            if "missing" in m and "file" in m:
                cls = "missing-file"
            elif "unreadable" in m:
                cls = "unreadable"
            elif m.startswith("key "):
                cls = "wn-key"
            else:
                cls = "inconsistent"
            self.bad(cls, "%s: %s" % (why, m), op, d)
            d.broken = True
            return None
        self.idents(d, g, op, True)
        r = self.content(d, g, d.doubt)
        if r:
            self.bad(r[0], "%s: %s" % (why, r[1]), op, d)
            d.broken = True
        try:
            n = self.parse(d, "wn")
            top = max(g.items) if g.items else -1
            if n <= top:
                self.bad("wn-counter", "%s: next number %d but %d is in use" % (why, n, top), op, d)
        except lang.Malformed as e:
            self.bad("wn-counter", "%s: %s" % (why, e), op, d)
        try:
            ix = self.parse(d, "indexes")
            self.index_shape(ix)
            self.index(d, g, ix, why, op)
        except lang.Malformed as e:
            self.bad("unreadable", "%s: %s" % (why, e), op, d)
        self.states.add(hash_state(g))
        return g

    def index(self, d, g, ix, why, op):
        labels = set(ix["node_labels"])
        names = {x for x in ix["relationship_names"] if x}
        nr = ix["node_relationships"]
        have = {"labels": labels, "names": names}
        want = {"labels": g.labels, "names": g.names}
        for s, cls in (("labels", "idx-label"), ("names", "idx-name")):
            w = d.wiped.get(s)
            must = want[s] if w is None else self.terms(s, w["since"].values())
            if not must <= have[s]:
                self.bad(cls, "%s: %s %s%s are not indexed" % (
                    why, s, sorted(must - have[s]), ", made after a wipe," if w else ""), op, d)
            if w and w["allow"] is not None and not have[s] <= w["allow"]:
                self.bad("wipe-undone", "%s: wiped index of %s holds %s again" % (
                    why, s, sorted(have[s] - w["allow"])[:5]), op, d)
        w = d.wiped.get("rels")
        for wn, rels in g.by_node.items():
            if (w is None or wn not in w["old"]) and set(nr.get(str(wn), ())) != rels:
                self.bad("idx-noderel", "%s: node %s has relationships %s, index says %s" % (
                    why, wn, sorted(rels), nr.get(str(wn))), op, d)
                break
        if w and w["gone"] is not None:
            back = sorted(k for k, x in nr.items() if x and int(k) in w["gone"])
            if back:
                self.bad("wipe-undone", "%s: the wiped index of relationships holds %s again" % (
                    why, back[:5]), op, d)
        if d.pure:
            if labels != g.labels:
                self.bad("idx-extra", "%s: labels %s are indexed and not in the graph" % (
                    why, sorted(labels - g.labels)), op, d)
            if names != g.names:
                self.bad("idx-extra", "%s: names %s are indexed and not in the graph" % (
                    why, sorted(names - g.names)), op, d)
            ex = {k for k, x in nr.items() if x} - {str(x) for x in g.by_node}
            if ex:
                self.bad("idx-extra", "%s: node_relationships has %s" % (why, sorted(ex)[:5]), op, d)

    @staticmethod
    def terms(store, makes):
        out = set()
        for c in makes:
            for ns, rs in c:
                if store == "labels":
                    out |= {n[0] for n in ns}
                else:
                    out |= {x[2] for x in rs if x[2]}
        return out

    def wiped_index(self, d, store, rec):
        """A wipe of an index has ended; rec["allow"]: the queries that overlapped it."""
        old = d.wiped.get(store)
        done = rec["status"] == "ok"
        d.since = {}
        w = d.wiped[store] = {"since": {}, "old": set(d.idents), "allow": None, "gone": None}
        if done:
            w["allow"] = {"labels": set(), "names": set()}.get(store)
            if w["allow"] is not None:
                for ls, ns in rec["allow"]:
                    w["allow"] |= ls if store == "labels" else ns
            w["gone"] = rec["gone"]
        elif old:
            w["allow"], w["gone"] = old["allow"], old["gone"]

    # ---- queries ---------------------------------------------------------------
    def query_start(self, rec, d, q):
        rec["comps"] = c = lang.comps(q) if not q.get("refuse") else Counter()
        rec["firm0"] = [Counter(a) for a in d.alts]
        rec["wns0"] = set(d.idents)
        rec["since0"] = list(d.since.values()) if d.idx_wiped else None
        rec["st0"] = d.st
        rec["damaged0"] = dict(d.damaged)
        rec["solo"] = not d.inflight
        rec["hazy"] = set(self.w.wiping(d))      # stores whose wipe overlaps this query
        terms = (set(), set()) if q.get("refuse") else lang.labels_names(q)
        rec["terms"] = terms
        for o in self.w.active:
            if o.get("dbkey") == d.dir and o is not rec:
                o["solo"] = False
                rec["solo"] = False
                if o["op"]["k"] == "wipe":
                    o["overlap"] = True
                    o["allow"].append(terms)
        for s, w in d.wiped.items():
            if w["allow"] is not None:
                w["allow"] |= terms[0] if s == "labels" else terms[1]
        if rec["solo"] and (q.get("refuse") or d.damaged or not c):
            rec["before"] = self.content_of(d)
        d.inflight[rec["id"]] = c
        if not q.get("refuse"):
            ls, rs = lang.labels_names(q)
            d.labels |= ls
            d.names |= rs

    def content_of(self, d):
        out = {}
        for s in ("database", "indexes"):
            b = self.raw(d, s)
            try:
                j = json.loads(b.decode("utf-8"))
                if s == "indexes":
                    j = {"r": {k: sorted(v) for k, v in j["node_relationships"].items()},
                         "l": sorted(j["node_labels"]),
                         "n": sorted(str(x) for x in j["relationship_names"])}
                out[s] = json.dumps(j, sort_keys=True)
            except Exception:
                out[s] = repr(b)
        return out

    def query_end(self, rec, d, q):
        d.inflight.pop(rec["id"], None)
        c = rec["comps"]
        st = rec["status"]
        hard = any(f[0] in HARD for f in rec["fired"])
        live = rec["st0"] == "live" and d.st == "live"
        dam = rec["damaged0"] or d.damaged
        if st == "ok":
            if q.get("refuse") and live:
                self.bad("accepted-bad", "a query that must be refused was acknowledged: %r" % (
                    lang.render(q)[:120],), rec["id"], d)
                d.broken = True
            if dam and c:
                self.bad("damage-acked", "MAKE acknowledged on damaged storage", rec["id"], d)
                d.broken = True
            if c and "database" in rec["hazy"]:      # before or after a wipe, who knows
                d.doubt.append(c)
                d.hazy.append(c)
                d.pure = False
            else:
                if c:
                    d.unsure = False
                for a in d.alts:
                    a.update(c)
                if c and d.idx_wiped and live:
                    if not rec["hazy"]:
                        d.since[rec["id"]] = c
                    for s in d.wiped:
                        if s not in rec["hazy"]:
                            d.wiped[s]["since"][rec["id"]] = c
                if c and len(d.alts) > 1:
                    self.narrow(d)
            if c and "database" not in rec["hazy"]:
                d.windows[rec["id"]] = (c, [list(x) for x in rec["clk"]])
        elif st == "raised":
            if c:
                if hard or dam or not live:
                    d.doubt.append(c)
                    d.pure = False
                else:
                    d.doubt.append(c)
                    self.bad("healthy-failed", "well-formed query raised %s: %s | %r" % (
                        rec["err"][0], rec["err"][1][:100], lang.render(q)[:120]), rec["id"], d)
                    if lang.find_of(q) is not None:
                        self.bad("find-failed", "well-formed query with a FIND raised %s: %s | %r" % (
                            rec["err"][0], rec["err"][1][:100], lang.render(q)[:120]), rec["id"], d)
            elif not q.get("refuse") and not hard and not dam and live and q.get("stmts"):
                self.bad("find-failed", "well-formed FIND raised %s: %s | %r" % (
                    rec["err"][0], rec["err"][1][:100], lang.render(q)[:120]), rec["id"], d)
        else:                                    # crashed / interrupted
            if c:
                d.doubt.append(c)
            d.pure = False
        if c and st != "ok" and "database" in rec["hazy"]:
            d.hazy.append(c)
        if hard or rec["hazy"]:
            d.pure = False
        if c and rec["hazy"] and d.wiped:
            try:
                wns = set(self.graph(d).items)
            except lang.Malformed:
                wns = set()
            for s in rec["hazy"]:
                if s in d.wiped:
                    d.wiped[s]["old"] |= wns
        if rec["solo"] and "before" in rec and live and not c and st in ("ok", "raised") \
                and not rec.get("powered"):
            self.checks["unchanged"] += 1
            after = self.content_of(d)
            for s in after:
                if after[s] != rec["before"][s]:
                    cls = "refused-changed" if q.get("refuse") else "find-wrote"
                    self.bad(cls, "%s changed the %s store" % (
                        "a refused query" if q.get("refuse") else "a FIND", s), rec["id"], d)
        if dam and rec["damaged0"] == d.damaged and c:
            self.damage_check(rec, d)
        self.find_check(rec, d, q, live, hard, dam)
        if not d.inflight and not any(o.get("dbkey") == d.dir for o in self.w.active if o is not rec):
            g = self.quiet(d, "after op %s" % rec["id"], rec["id"])
            if g is not None and st == "ok" and c:
                self.stamp_check(rec, d, g, c)

    def damage_check(self, rec, d):
        for s, (orig, bad) in d.damaged.items():
            now = self.raw(d, s)
            if now != bad:
                self.bad("damage-overwritten", "the damaged %s file was changed from %r to %r" % (
                    s, (bad or b"(missing)")[:30], (now or b"")[:30]), rec["id"], d)
        if "before" in rec and "database" not in d.damaged:
            if self.content_of(d)["database"] != rec["before"]["database"]:
                self.bad("damage-applied", "the graph was changed although %s is damaged" % (
                    sorted(d.damaged),), rec["id"], d)

    def stamp_check(self, rec, d, g, c):
        """created_at of everything this acknowledged query made (solo writer)."""
        if not rec["solo"]:
            return
        self.checks["stamps"] += 1
        lo = min(x[0] for x in rec["clk"]) - 5e-5
        hi = max(x[1] for x in rec["clk"]) + 5e-5
        new = [wn for wn in g.items if wn not in rec["wns0"]] if "wns0" in rec else []
        for wn in new:
            t = g.items[wn][1]
            if not isinstance(t, (int, float)) or isinstance(t, bool) or not lo <= t <= hi:
                self.bad("created-window", "created_at %r of %s is outside [%.6f, %.6f]" % (
                    t, g.items[wn][0][:2], lo, hi), rec["id"], d)
                break

    def stamps_all(self, d):
        """Same, for every acknowledged query whose components are recognisable."""
        if d.st != "live" or d.damaged or d.broken or not d.windows:
            return
        try:
            g = self.graph(d)
        except lang.Malformed:
            return
        for qid, (c, clk) in sorted(d.windows.items()):
            lo = min(x[0] for x in clk) - 5e-5
            hi = max(x[1] for x in clk) + 5e-5
            for comp in c:
                if g.comps.get(comp) != 1 or any(a[comp] != 1 for a in d.alts) or any(
                        comp in x for x in d.doubt):
                    continue
                self.checks["stamps"] += 1
                for t in g.times[comp]:
                    if not isinstance(t, (int, float)) or not lo <= t <= hi:
                        self.bad("created-window", "created_at %r of data made by query %s is outside "
                                 "[%.6f, %.6f]" % (t, qid, lo, hi), qid, d)
                        return

    def narrow(self, d):
        """An acknowledged MAKE makes the present alternative durable."""
        try:
            g = self.graph(d)
        except lang.Malformed:
            return
        ok = [a for a in d.alts if self.content(d, g, d.doubt + list(d.inflight.values()), [a]) is None]
        if ok:
            d.alts = ok

    def find_check(self, rec, d, q, live, hard, dam):
        f = lang.find_of(q)
        if f is None or q.get("refuse") or rec["status"] != "ok" or not live or dam:
            return
        if rec["hazy"]:
            return
        p, own = f
        none = "no results" in rec["out"].lower()
        self.checks["find"] += 1
        firm = rec["since0"] if d.idx_wiped else rec["firm0"]
        if d.idx_wiped and firm is None:             # wiped meanwhile
            return
        some = any if d.idx_wiped else all
        must = some(any(lang.comp_matches(c, p) for c in a) for a in firm) or (
            own and any(lang.comp_matches(c, p) for c in rec["comps"]))
        if none and must:
            self.bad("find-missed", "FIND says no results but the graph has a match: %r" % (
                lang.render(q)[:160],), rec["id"], d)
        labels = {n["l"] for n in p["n"]}
        names = {r["l"] for r in p["r"] if r["l"]}
        if not none and not hard and (not (labels & d.labels) or (names and not (names & d.names))):
            self.bad("find-ghost", "FIND does not say no results although nothing matches: %r" % (
                lang.render(q)[:160],), rec["id"], d)

    # ---- readers -------------------------------------------------------------------
    def view_check(self, rec, d, view):
        """A session loaded the graph (python dict) while others may write."""
        if rec["st0"] != "live" or d.st != "live" or d.damaged or d.broken or rec.get("hazy"):
            return
        self.checks["view"] += 1
        try:
            g = lang.read_graph(view)
        except lang.Malformed as e:
            self.bad("reader-view", "loaded graph: %s" % e, rec["id"], d)
            return
        cands = d.doubt + rec["late"]
        r = self.content(d, g, cands, rec["firm0"])
        if r:
            self.bad("reader-view", "loaded graph is no state between whole queries: %s" % r[1], rec["id"], d)

    # ---- crashes ---------------------------------------------------------------------
    def power(self):
        for d in self.dbs.values():
            d.pure = False
            if d.st == "live" and d.unsure:
                d.st = "limbo_c"             # its creation was cut short, nothing was made in it
            if d.st == "absent" and d.erased and self.w.fs.find(d.dir) is not None:
                self.bad("delete-undone", "%r was deleted and is back after a power loss: %s" % (
                    d.name, sorted(self.w.fs.tree(d.dir))), None, d)
            if d.st == "absent" and d.acked_delete:
                d.st = "limbo_d"


def short(c):
    return repr(c)[:160]


def hash_state(g):
    return zlib.crc32(repr(sorted(g.comps.items())).encode())
