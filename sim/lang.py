"""WiggleGraph queries: generated syntax trees, their text, and the graph they mean.

A query is {"stmts": [...], "sep": str}.  A statement is
  {"c": "make", "pats": [pattern...], "kw": text, "ws": ...}
  {"c": "find", "pats": [pattern], ...}   {"c": "report", "handles": [...], ...}
A pattern is {"n": [node...], "r": [rel...]} with one relationship between
neighbours.  The reference meaning of a pattern is a connected component of a
property graph; a graph is a multiset of such components.
"""
import itertools
import json
from collections import Counter
from decimal import Decimal

LABELS = ["Person", "City", "Cat", "Dog_2", "A", "B", "Zebra", "wolf", "node", "Übung", "X9",
          "PersonCity", "Cats", "a", "Set", "Ab", "Report", "Kame", "Finder", "_x", "9A", "zebra", "q", "\ufb01", "\u212bse", "stra\u00dfe", "\uff22", "\u00c5se", "L" * 70, "L" * 69 + "x",
          "Label_" * 60]
RELS = ["KNOWS", "LIKES", "OWNS", "R", "NEXT_TO", "ÜBER", "REL2", "KNOW", "LIVES_IN", "MAKE",
        "R2D2", "LIVESIN", "K\u2126", "\uff32", "\u1e9e", "R" * 70, "R" * 69 + "S", "REL_" * 80]
KEYS = ["name", "age", "w", "flag", "note", "list", "x1", "Name", "tags", "_k", "ünit", "make", "null",
        "1", "NAME", "tag2", "\ufb01", "\u212b", "x\uff11", "k" * 70, "k" * 69 + "j", "key_" * 70]
WORDS = ["Harry", "cat", "7 Up", "foo@bar.net", "a b c", "3.14", "42", "x.y", "it",
         "Zoë", "nullable", "untrue", "falsehood", "_", "Mr. T", "make", "find it", "r2d2",
         "null null", "q", "harry", "HARRY", "Cat", " b", "b ", "  ", "a  b", "", "'b'", "it's", '"b"',
         "0", "007", "1.0", "report", "null", "a q b", "q q", "help me", "m\u00b2", "\ufb01n",
         "\u212b", "\uff11\uff12", "\u017f", "\u2126", "\u0130", "fal\u017fe", "a\tb", "a\u00a0b", "a\u3000b",
         "a\u2028b", "a\x85b", "a\x0bb", "a\x1cb", "a\u2029"]
LIST_WORDS = ["a", "b c", "nullable", "untrue", "is false", "x@y.z", "7", "3.5", "a, b",
              "null value", "Zoë", "it's", ""]

HANDLES = list("nmpqxyz") * 3 + ["make", "find", "report", "Person", "null", "true", "_", "\u00fc", "N", "", "a_b"]


# ---- rendering ---------------------------------------------------------------
def scalar(v, q):
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, str):
        if "'" in v:
            q = '"'
        elif '"' in v:
            q = "'"
        return q + v + q
    text = repr(v)
    if "e" in text:                              # the language has no exponents
        text = format(Decimal(text), "f")
        text += "" if "." in text else ".0"
    return text


def value(v, q, f={}):
    if isinstance(v, list):
        i = f.get("lin", "")
        return "[" + i + f.get("lsep", ", ").join(scalar(x, q if n % 2 == 0 else '"') for n, x in enumerate(v)) + i + "]"
    return scalar(v, q)


def props(ps, f):
    if ps is None:
        return ""
    sep = f.get("psep", ", ")
    col = f.get("pcol", ": ")
    q = f.get("q", "'")
    i = f.get("pin", "") if ps else ""
    return f.get("pre", "") + "{" + i + sep.join(k + col + value(v, q, f) for k, v in ps) + i + "}"


def node(n, f):
    i = f.get("in", "")
    return "(" + i + n["h"] + f.get("col", ":") + n["l"] + props(n["p"], f) + i + ")"


def rel(r, f):
    i = f.get("rin", "")
    dash = "-" * f.get("dash", 1)
    body = r["h"]
    if r["h"] or r["l"] or r["p"] is not None:
        body += f.get("col", ":")
    if f.get("bare") and not r["h"] and not r["l"] and r["p"] is None:
        body = ":"
    body = i + body + r["l"] + props(r["p"], f) + i
    a, b = (dash, dash + ">") if r["d"] == ">" else ("<" + dash, dash)
    o = f.get("out", "")
    return o + a + "[" + body + "]" + b + o


def pattern(p, f):
    s = node(p["n"][0], f)
    for r, n in zip(p["r"], p["n"][1:]):
        s += rel(r, f) + node(n, f)
    return s


def statement(st):
    f = st.get("f", {})
    kw = st.get("kw", st["c"].upper())
    if st["c"] == "report":
        return kw + " " + ", ".join(st["handles"] or ["*"]) + ";"
    if st["c"] == "raw":
        return st["text"]
    return kw + f.get("gap", " ") + f.get("csep", ", ").join(pattern(p, f) for p in st["pats"]) + ";"


def render(q):
    if "text" in q:
        return q["text"]
    return q.get("lead", "") + q.get("sep", "\n").join(statement(s) for s in q["stmts"]) + q.get("tail", "")


# ---- reference meaning -----------------------------------------------------------
def pkey(d):
    if not d:
        return "{}"
    return json.dumps(d, sort_keys=True, ensure_ascii=True)


def canon(nodes, rels):
    """nodes: [(label, props)]; rels: [(from, to, name, props)] -> canonical key."""
    ns = [(l, pkey(p)) for l, p in nodes]
    rs = [(a, b, nm or "", pkey(p)) for a, b, nm, p in rels]
    if len(ns) == 1 and not rs:
        return ((ns[0],), ())
    if len(ns) > 5:
        return (tuple(sorted(ns)),
                tuple(sorted((ns[a], ns[b], n, p) for a, b, n, p in rs)))
    best = None
    for perm in itertools.permutations(range(len(ns))):
        inv = {o: i for i, o in enumerate(perm)}
        c = (tuple(ns[o] for o in perm),
             tuple(sorted((inv[a], inv[b], n, p) for a, b, n, p in rs)))
        if best is None or c < best:
            best = c
    return best


def pat_comp(p):
    nodes = [(n["l"], dict((k, v) for k, v in n["p"]) if n["p"] else {}) for n in p["n"]]
    rels = []
    for i, r in enumerate(p["r"]):
        a, b = (i, i + 1) if r["d"] == ">" else (i + 1, i)
        rels.append((a, b, r["l"], dict((k, v) for k, v in r["p"]) if r["p"] else {}))
    return canon(nodes, rels)


def makes(q):
    return [p for s in q.get("stmts", []) if s["c"] == "make" for p in s["pats"]]


def comps(q):
    return Counter(pat_comp(p) for p in makes(q))


def find_of(q):
    """(pattern, own MAKEs come before it in the text) or None."""
    seen = False
    for s in q.get("stmts", []):
        if s["c"] == "make":
            seen = True
        if s["c"] == "find":
            later = False
            on = False
            for t in q["stmts"]:
                if t is s:
                    on = True
                elif on and t["c"] == "make":
                    later = True
            return s["pats"][0], (seen and not later)
    return None


def labels_names(q):
    ls, rs = set(), set()
    for p in makes(q):
        ls |= {n["l"] for n in p["n"]}
        rs |= {r["l"] for r in p["r"] if r["l"]}
    return ls, rs


# ---- reading a stored graph --------------------------------------------------------
class Malformed(Exception):
    pass


def read_graph(db):
    """Stored dict -> (components Counter, items, rel wns by node).

    items: wn -> ("n"|"r", identity, created_at, updated_at)."""
    if not isinstance(db, dict):
        raise Malformed("graph is not a mapping")
    nodes, rels, items, dup = {}, [], {}, []
    by_node = {}
    for key, nd in db.items():
        try:
            md = nd["node_metadata"]
            wn = md["wn"]
            if str(wn) != key:
                raise Malformed("key %s holds node %s" % (key, wn))
            nodes[wn] = (nd["node_label"], nd.get("properties") or {})
            ident = ("n", nd["node_label"], pkey(nd.get("properties")))
            if wn in items:
                dup.append(wn)
            items[wn] = (ident, md.get("created_at"), md.get("updated_at"))
            for r in nd.get("relations") or []:
                rm = r["relationship_metadata"]
                rels.append((r["wn_from_node"], r["wn_to_node"], r["relationship_name"],
                             r.get("properties") or {}))
                if r["wn_from_node"] != wn:
                    raise Malformed("relationship %s from %s stored with node %s" % (
                        rm["wn"], r["wn_from_node"], wn))
                if rm["wn"] in items:
                    dup.append(rm["wn"])
                items[rm["wn"]] = (("r", r["relationship_name"] or "", pkey(r.get("properties")),
                                    r["wn_from_node"], r["wn_to_node"]),
                                   rm.get("created_at"), rm.get("updated_at"))
                by_node.setdefault(wn, set()).add(rm["wn"])
        except Malformed:
            raise
        except Exception as e:
            raise Malformed("node %r: %s %s" % (key, type(e).__name__, e))
    for a, b, _, _ in rels:
        if a == b:
            raise Malformed("self relationship at %s" % a)
        if a not in nodes or b not in nodes:
            raise Malformed("relationship %s->%s has a missing end" % (a, b))
    parent = {w: w for w in nodes}

    def root(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for a, b, _, _ in rels:
        parent[root(a)] = root(b)
    groups = {}
    for w in nodes:
        groups.setdefault(root(w), []).append(w)
    rg = {}
    for r in rels:
        rg.setdefault(root(r[0]), []).append(r)
    out = Counter()
    times = {}
    for g, ws in groups.items():
        ix = {w: i for i, w in enumerate(ws)}
        c = canon([nodes[w] for w in ws],
                  [(ix[a], ix[b], n, p) for a, b, n, p in rg.get(g, [])])
        out[c] += 1
        ts = times.setdefault(c, [])
        for w in ws:
            ts.append(items[w][1])
            ts.extend(items[x][1] for x in by_node.get(w, ()))
    return Graph(times, out, items, by_node, dup, {nodes[w][0] for w in nodes},
                 {r[2] for r in rels if r[2]})


class Graph:
    __slots__ = ("times", "comps", "items", "by_node", "dup", "labels", "names")

    def __init__(self, times, comps, items, by_node, dup, labels, names):
        self.times = times
        self.comps, self.items, self.by_node = comps, items, by_node
        self.dup, self.labels, self.names = dup, labels, names


# ---- matching (reference semantics of FIND, used one-sidedly) ------------------------
def comp_matches(comp, p):
    """Does a stored component contain something the pattern matches exactly?"""
    ns, rs = comp
    want = [(n["l"], pkey(dict((k, v) for k, v in n["p"]) if n["p"] else {})) for n in p["n"]]
    wrel = []
    for i, r in enumerate(p["r"]):
        a, b = (i, i + 1) if r["d"] == ">" else (i + 1, i)
        wrel.append((a, b, r["l"], pkey(dict((k, v) for k, v in r["p"]) if r["p"] else {})))
    if len(want) > len(ns):
        return False
    for perm in itertools.permutations(range(len(ns)), len(want)):
        if any(not _sub(want[i], ns[perm[i]]) for i in range(len(want))):
            continue
        ok = True
        for a, b, nm, pk in wrel:
            if not any(x == perm[a] and y == perm[b] and (not nm or nm == n2) and _psub(pk, p2)
                       for x, y, n2, p2 in rs):
                ok = False
                break
        if ok:
            return True
    return False


def _sub(w, n):
    return w[0] == n[0] and _psub(w[1], n[1])


def _psub(w, n):
    if w == "{}" or w == n:
        return True
    a, b = json.loads(w), json.loads(n)
    return all(k in b and json.dumps(v) == json.dumps(b[k]) for k, v in a.items())


# ---- generation --------------------------------------------------------------------
class Gen:
    """Draws well-formed queries; swarm features are fixed per run by `feat`."""

    def __init__(self, rng, feat=None):
        self.rng = rng
        self.tag = 0
        self.hn = 0
        r = rng
        self.feat = feat or {}
        f = self.feat
        f.setdefault("labels", r.sample(LABELS, r.choice([1, 2, 3, 5, 8])))
        f.setdefault("rels", r.sample(RELS, r.choice([1, 2, 3, 5])))
        f.setdefault("tags", r.choice([1.0, 1.0, 0.9, 0.5]))
        f.setdefault("props", r.choice([0, 0.3, 0.8]))
        f.setdefault("types", r.sample(["null", "bool", "int", "float", "str", "list"],
                                       r.randint(1, 6)))
        f.setdefault("handles", r.choice([0, 0.5]))
        f.setdefault("max_stmts", r.choice([1, 1, 2, 3]))
        f.setdefault("max_pats", r.choice([1, 2, 4]))
        f.setdefault("max_nodes", r.choice([1, 2, 3, 3]))
        f.setdefault("fmt", r.random() < 0.6)
        f.setdefault("find", r.choice([0, 0.2]))
        f.setdefault("back", r.choice([0, 0.5, 1]))
        f.setdefault("unnamed", r.choice([0, 0.3]))
        f.setdefault("again", r.choice([0, 0, 0.05, 0.2]))
        self.past = []
        f.setdefault("long", r.choice([0.1, 0.3]) if r.random() < 0.1 else 0)
        f.setdefault("bulk", r.choice([0.1, 0.3]) if r.random() < 0.06 else 0)

    def val(self, t=None):
        r = self.rng
        t = t or r.choice(self.feat["types"])
        if t == "null":
            return None
        if t == "bool":
            return r.random() < 0.5
        if t == "int":
            return r.choice([0, 1, 7, 42, 10 ** 9, 2 ** 53 + 1, 2 ** 63, 10 ** 30, r.randint(0, 10 ** 6),
                             r.getrandbits(60)])
        if t == "float":
            return r.choice([0.0, 1.0, 3.14, 0.1, 100.25, 12345.678, round(r.random() * 100, 4),
                             0.1 + r.random(), 2.718281828459045, 123456789.12345679, 0.30000000000000004,
                             1e-05, 1.5e-13, 7e-41, 2.5e-308, 1e22, 1.7e308])
        if t == "str":
            if r.random() < 0.01:
                return (r.choice(["ab c", "Zo\u00eb ", "x"]) * r.choice([100, 1000, 3000, 3000, 25000, 70000]))[:70000]
            return r.choice(WORDS)
        n = r.choice([0, 1, 1, 2, 3, 4]) if r.random() < 0.99 else r.choice([20, 100])
        out = []
        for _ in range(n):
            k = r.choice(["int", "float", "bool", "null", "str", "str"])
            out.append(r.choice(LIST_WORDS) if k == "str" else self.val(k))
        return out

    def plist(self, tagged):
        r, f = self.rng, self.feat
        ps = []
        if tagged:
            self.tag += 1
            ps.append(["tag", self.tag])
        if r.random() < f["props"]:
            for k in r.sample(KEYS, r.randint(1, 3) if r.random() < 0.99 else r.randint(4, len(KEYS))):
                ps.append([k, self.val()])
            if r.random() < 0.003:
                ps += [["k%d" % i, self.val()] for i in range(r.choice([40, 70, 150]))]
            r.shuffle(ps)
        if not ps:
            return [] if r.random() < 0.05 else None
        return ps

    def handle(self):
        if self.rng.random() < self.feat["handles"]:
            self.hn += 1
            return self.rng.choice(HANDLES) + str(self.hn)
        return ""

    def pat(self, nodes=None, tagged=None):
        r, f = self.rng, self.feat
        k = nodes or r.randint(1, f["max_nodes"])
        tagged = (r.random() < f["tags"]) if tagged is None else tagged
        ns = [{"h": self.handle(), "l": r.choice(f["labels"]), "p": self.plist(tagged)}
              for _ in range(k)]
        rs = []
        for _ in range(k - 1):
            un = r.random() < f["unnamed"]
            rs.append({"h": self.handle(), "l": "" if un else r.choice(f["rels"]),
                       "p": self.plist(tagged and r.random() < 0.5),
                       "d": "<" if r.random() < f["back"] else ">"})
            if rs[-1]["p"] == []:
                rs[-1]["p"] = None
        if k > 1 and r.random() < 0.08:          # parts that look the same
            a, b = r.sample(range(k), 2)
            ns[b] = dict(ns[b], l=ns[a]["l"], p=json.loads(json.dumps(ns[a]["p"])))
            if k > 2 and r.random() < 0.5:
                rs[1] = dict(rs[1], l=rs[0]["l"], p=json.loads(json.dumps(rs[0]["p"])))
        return {"n": ns, "r": rs}

    def fmt(self):
        r = self.rng
        if not self.feat["fmt"]:
            return {}
        f = {}
        if r.random() < 0.3:
            f["psep"] = r.choice([",", " , ", ",  ", ",\t"])
        if r.random() < 0.3:
            f["pcol"] = r.choice([":", " : ", ":  ", ":\t"])
        if r.random() < 0.3:
            f["q"] = '"'
        if r.random() < 0.3:
            f["in"] = r.choice([" ", " ", "\t"])
        if r.random() < 0.3:
            f["rin"] = " "
        if r.random() < 0.3:
            f["out"] = " "
        if r.random() < 0.3:
            f["pre"] = " "
        if r.random() < 0.3:
            f["csep"] = r.choice([",", " , ", ",   "])
        if r.random() < 0.2:
            f["gap"] = r.choice(["", "  ", "\t"])
        if r.random() < 0.2:
            f["dash"] = r.choice([2, 3, 5])
        if r.random() < 0.2:
            f["col"] = r.choice([": ", " :", " : "])
        if r.random() < 0.2:
            f["lsep"] = r.choice([",", " , ", ",  "])
        if r.random() < 0.2:
            f["lin"] = " "
        if r.random() < 0.2:
            f["pin"] = " "
        if r.random() < 0.2:
            f["bare"] = 1
        return f

    def kw(self, c):
        x = self.rng.random()
        return c.upper() if x < 0.6 else c.lower() if x < 0.9 else c.capitalize()

    def make(self, pats=None, **k):
        n = pats or self.rng.randint(1, self.feat["max_pats"])
        if self.feat["bulk"] and self.rng.random() < self.feat["bulk"]:
            n = self.rng.choice([15, 30, 60])
        self.hn = 0
        return {"c": "make", "kw": self.kw("make"), "f": self.fmt(),
                "pats": [self.pat(**k) for _ in range(n)]}

    def strip_props(self, p, keep=0.0):
        q = json.loads(json.dumps(p))
        for x in q["n"] + q["r"]:
            if self.rng.random() >= keep:
                x["p"] = None
        if self.rng.random() < 0.05:
            self.rng.choice(q["n"])["p"] = []
        return q

    def find(self, pat):
        p = json.loads(json.dumps(pat))
        return {"c": "find", "kw": self.kw("find"), "f": self.fmt(), "pats": [p]}

    def report(self, pat):
        hs = [x["h"] for x in pat["n"] + pat["r"] if x["h"]]
        if self.rng.random() < 0.3:
            hs = [self.rng.choice(["%s", "wn(%s)", "%s.name", "%s.w"]) % h for h in hs]
        return {"c": "report", "kw": self.kw("report"), "handles": hs}

    def query(self, stmts=None, find=None):
        r = self.rng
        if self.past and r.random() < self.feat["again"]:
            q = self.again(stmts, find)
            if q is not None:
                return q
        n = stmts or r.randint(1, self.feat["max_stmts"])
        if stmts is None and self.feat["long"] and r.random() < self.feat["long"]:
            n = r.choice([4, 5, 6, 8, 12, 20, 40])
        ss = [self.make() for _ in range(n)]
        if r.random() < (self.feat["find"] if find is None else find):
            pat = self.strip_props(r.choice(ss)["pats"][0], 0.3)
            fs = [self.find(pat)]
            if r.random() < 0.5:
                fs.append(self.report(pat))
            ss = ss + fs if r.random() < 0.8 else fs + ss
        q = {"stmts": ss, "sep": r.choice(["\n", "\n", " ", "", "\n\n"])}
        if any(s["c"] == "report" for s in ss):
            q["sep"] = "\n"
        if self.feat["fmt"]:
            q["lead"] = r.choice(["", "", "\n", "  "])
            q["tail"] = r.choice(["", "", "\n", " "])
        self.past.append(q)
        return q

    def again(self, stmts, find):
        """An earlier query once more, to the letter or nearly so."""
        r = self.rng
        q = r.choice(self.past)
        if "stmts" not in q or find == 0 and find_of(q) is not None or not makes(q):
            return None
        q = json.loads(json.dumps(q))
        x = r.random()
        if x < 0.4:
            pat = r.choice(r.choice([s for s in q["stmts"] if s["c"] == "make"])["pats"])
            n = r.choice(pat["n"] + pat["r"])
            if x < 0.2 and n["p"]:
                n["p"][r.randrange(len(n["p"]))][1] = self.val()
            elif n in pat["n"]:
                n["l"] = r.choice(self.feat["labels"])
            elif n["l"]:
                n["l"] = r.choice(self.feat["rels"])
        self.past.append(q)
        return q

    def find_query(self, pat, report=None):
        ss = [self.find(pat)]
        if report if report is not None else self.rng.random() < 0.3:
            ss.append(self.report(pat))
        return {"stmts": ss, "sep": "\n"}
