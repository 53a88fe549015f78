"""Random plans, one generator per property.  A plan is plain JSON and, together with
the recorded scheduling deviations, determines a run completely."""
import json

from . import lang

EST = {"q": 60, "create": 40}

EPOCHS = [1_700_000_000.0, 1_699_163_000.25, 1_678_607_900.5, 946_684_799.75, 4_102_444_700.0,
          1_709_164_799.9, 1_667_095_200.0, 1_000_000_000.0]
TZS = ["UTC", "UTC", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3",
       "NZST-12NZDT,M9.5.0,M4.1.0/3"]
NAMES = ["a", "b", "cats", "db1", "db_2", "A", "x.y", "Zoo", "graph", "main", "notes", "ab"]
KIN = ["a", "A", "ab", "a b", "a.b", "ab.c", "b", "B", "aa", "a.json", "indexes_a", "a_a", "AB"]
ODD = ["my db", "a b c", "ünï", "a-b", "x.json", "database", "indexes_a", "1", "wiggle_number",
       "q", "n", "y", "help", "a'b", "name with  gap", "~", "$HOME", "-rf", "tests1", "test", "testing", "my tests", "__pycache__1", "_a", "Tests", "tests_a", ".home", "..."]
GLOBBY = ["*", "?", "[ab]", "a*", "[!x]", "??", "[a-z]*", "**"]


# ---- pieces -------------------------------------------------------------------------
def knobs(r, **over):
    k = {
        "epoch": r.choice(EPOCHS) + r.choice([0, r.random() * 1e6]),
        "tick": r.choice([0.0005, 0.0005, 0.01, 0.5]),
        "tz": r.choice(TZS),
        "bufsize": r.choice([16, 64, 256, 1024, 4096, 8192, 8192]),
        "chunk": r.choice([32, 256, 8192, 8192]),
        "dir_order": r.randint(0, 1 << 30),
        "sector": r.choice([1, 16, 64, 512]),
        "entropy": r.randint(0, 1 << 30),
        "log_seed": r.randint(0, 1 << 30),
        "pid0": r.randint(0, 30000),
        "strategy": strategy(r),
    }
    if r.random() < 0.15:
        k["short_io"] = r.choice([0.05, 0.3, 0.9])
        k["short_seed"] = r.randint(0, 1 << 30)
    if r.random() < 0.12:
        k["locales"] = r.randint(0, 1 << 30)
    if r.random() < 0.3:
        k["dirs"] = 1
    if r.random() < 0.03:
        k["fresh_import"] = True
    k.update(over)
    return k


# names that some way of comparing strings takes for the same
TWINS = [["caf\u00e9", "cafe\u0301", "cafe"], ["\ufb01x", "fix"], ["stra\u00dfe", "strasse"],
         ["i", "I", "\u0131", "\u0130"], ["\u212bx", "\u00c5x"], ["\uff41", "a"], ["a.", "a", "a.."],
         ["a_", "a", "_a"], ["01", "1"], ["a" * 100, "a" * 101], ["%61", "a"]]
TRAILING = [["a ", "a"], ["b ", "b"], ["a  b", "a b"], ["a b ", "a b"]]
BLANKS = [[" a", "a", "a "], ["a\t", "a"], ["a\n", "a"], ["a  b", "a b"], [" ", "_"], ["\u00a0a", "a"], ["b ", "b"]]
ALIKE = [["\u00e9t\u00e9", "e\u0301te\u0301"], ["\ufb01n", "fin"], ["\u212a", "K"], ["a", "\u0430"], ["\u2167", "VIII"],
         ["x" * 70 + "1", "x" * 70 + "2"], ["stra\u00dfe", "strasse"], ["01", "1"], ["1", "1.0"]]
BLANKS += ALIKE
TRAILING += ALIKE
STRAY = ["README.md", ".gitkeep", "notes.txt", ".DS_Store", "database_a.json", "x.tmp"]


def strays(r, plan):
    """Files in the DBMS folder that are no DBMS."""
    if r.random() < 0.2:
        plan["init"]["stray"] = r.sample(STRAY, r.choice([1, 1, 2]))
        if r.random() < 0.4:
            plan["init"]["stray_dirs"] = r.choice([["tests"], ["__pycache__"], ["tests", "__pycache__"]])


def answers(r, made, fuzz=0.3):
    """Answers to the prompt for a new name that are turned down, then asked again."""
    out = []
    while r.random() < fuzz:
        out.append({"taken": r.choice(made)} if made and r.random() < 0.6 else
                   r.choice(["", ".", "..", "tests", "x/y", "../x", "__pycache__", "a\0b"]))
    return out


def some_names(r, n, pool):
    """Names of DBMSs; often ones that differ by little, so that mix-ups show."""
    if n > 1 and r.random() < 0.2:
        t = r.choice(TWINS)
        t = r.sample(t, min(n, len(t)))
        return t + r.sample([x for x in pool if x not in t], n - len(t))
    return r.sample(KIN if r.random() < 0.5 else pool, min(n, len(KIN)))


def some_dbs(r):
    return ("a",) if r.random() < 0.7 else r.choice([("a", "b"), ("a", "A"), ("a", "ab"), ("a", "x.y")])


def strategy(r):
    x = r.random()
    if x < 0.25:
        return ["uniform"]
    if x < 0.6:
        return ["sticky", r.choice([0.02, 0.1, 0.3, 0.5])]
    if x < 0.85:
        return ["pct", r.choice([0.01, 0.03, 0.1])]
    return ["starve", r.randint(0, 3)]


def nth(r, cls, op="q"):
    if cls == "any":
        top = int(EST[op] * 1.15) + 2
        return r.randint(1, top)
    return r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 12, 15])


def line(r, kind):
    """Strike between two lines of the code under test rather than at a system call."""
    return {"k": kind, "c": "line", "n": int(10 ** (3.2 * r.random()))}


def crash(r, kinds=("kill", "kill", "power", "power", "sigint"), op="q"):
    kind = r.choice(kinds)
    cls = r.choice(["any", "any", "mut", "mut", "mut", "write", "sync", "rename", "close", "trunc",
                    "lock", "open"])
    f = {"k": kind, "c": cls, "n": nth(r, cls, op)}
    if kind == "sigint" and r.random() < 0.4:
        return line(r, kind)
    if kind == "power":
        f["seed"] = r.randint(0, 1 << 30)
    if kind in ("kill", "power") and r.random() < 0.5:
        f["partial"] = round(r.random(), 2)
    return f


def ioerr(r, kinds=("eio", "eio", "enospc", "enospc", "eacces", "emfile", "enomem"), op="q"):
    kind = r.choice(kinds)
    if kind == "enospc":
        cls = r.choice(["write", "write", "any", "dir"])
    elif kind == "eacces":
        cls = r.choice(["open", "rename", "dir", "any"])
    elif kind == "emfile":
        cls = "open"
    else:
        cls = r.choice(["any", "any", "write", "write", "read", "sync", "rename", "open", "close",
                        "stat", "trunc", "lock", "mut"])
    f = {"k": kind, "c": cls, "n": nth(r, cls, op)}
    if kind == "enomem" and r.random() < 0.5:
        return line(r, kind)
    if r.random() < 0.35:
        f["sticky"] = True
    if kind in ("eio", "enospc") and r.random() < 0.4:
        f["partial"] = round(r.random(), 2)
    if r.random() < 0.15:
        f["path"] = r.choice(["database_", "indexes_", "wiggle_number_"])
        f["n"] = r.choice([1, 2, 3, 4])
    return f


def soft(r):
    return r.choice([{"k": "short", "c": r.choice(["write", "read"]), "n": r.randint(1, 4),
                      "sticky": r.random() < 0.5, "partial": r.choice([0.0, 0.3, 0.7])},
                     {"k": "stall", "c": "any", "n": r.randint(1, EST["q"]), "d": r.choice([0.1, 5, 1000])},
                     {"k": "jump", "c": "any", "n": r.randint(1, EST["q"]),
                      "d": r.choice([-86400.0, -3.0, 0.5, 7200.0, 1e7])}])


def q(query, db="a", faults=None, **kw):
    o = {"k": "q", "db": db, "q": query}
    if faults:
        o["faults"] = faults
    o.update(kw)
    return o


def load(r, db="a", fault_p=0.15, main=1):
    o = {"k": "load", "db": db, "what": r.choice(["database"] * main + ["labels", "names", "rels"])}
    if r.random() < fault_p:
        f = ioerr(r, ("eio", "eio", "eacces", "emfile", "enomem"))
        f["c"], f["n"] = r.choice([("any", r.randint(1, 8)), ("read", r.randint(1, 3)), ("open", 1)])
        f.pop("path", None)
        o["faults"] = [f if r.random() < 0.8 else soft(r)]
    return o


def phase(*sessions, **kw):
    return dict({"sessions": [dict({"id": i, "ops": s}) if isinstance(s, list) else s
                              for i, s in enumerate(sessions)]}, **kw)


def pool_pats(ops):
    """Every pattern some MAKE in these operations writes."""
    out = []
    for o in ops:
        for s in (o.get("q") or {}).get("stmts", []):
            if s["c"] == "make":
                out += s["pats"]
    return out


# ---- queries that must be refused ------------------------------------------------------
def refused(g):
    """A query outside the language; each kind breaks one rule, usually in the last statement."""
    r = g.rng
    n = r.choice([0, 0, 1, 1, 2]) if r.random() < 0.9 else r.choice([3, 4, 6, 9])
    good = [g.make() for _ in range(n)]
    for s in good:
        s["kw"] = s["kw"].upper() if r.random() < 0.7 else s["kw"].lower()
    pat = g.pat(tagged=True)
    f = {}
    kw = r.choice(["MAKE", "make"])
    base = lang.pattern(pat, f)
    while r.random() < 0.07:                    # the rule is broken further on
        base += ", " + lang.pattern(g.pat(tagged=True), f)
    if r.random() < 0.06:                       # much further on
        base += "".join(", " + lang.pattern(g.pat(nodes=r.choice([2, 3]), tagged=True), f)
                        for _ in range(r.choice([2, 4, 7])))
    l1, l2 = r.choice(lang.LABELS), r.choice(lang.LABELS)
    rn = r.choice(["KNOWS", "R", "LIKES"])
    kind = r.choice(KINDS)
    sep = r.choice(["\n", " ", ""])
    bad = None
    pre = post = ""
    if kind == "char":
        c = r.choice("#%&*$")
        bad = r.choice(["%s (:%s%s);" % (kw, l1, c), "%s (:%s{note: 'a%sb'});" % (kw, l1, c),
                        "%s %s, (%s:%s);" % (kw, base, c, l1)])
    elif kind == "paren":
        bad = r.choice(["%s (:%s{tag: 1};" % (kw, l1) + "\nMAKE (:%s);" % l2 if False else
                        "%s %s, :%s{tag: 1});" % (kw, base, l1),
                        "%s %s, (:%s{tag: 1}));" % (kw, base, l1),
                        "%s ((:%s{tag: 1});" % (kw, l1)])
    elif kind == "curly":
        bad = r.choice(["%s %s, (:%s{tag: 1);" % (kw, base, l1), "%s (:%s tag: 1});" % (kw, l1)])
    elif kind == "square":
        bad = r.choice(["%s (:%s)-[:%s->(:%s);" % (kw, l1, rn, l2),
                        "%s %s, (:%s)-:%s]->(:%s);" % (kw, base, l1, rn, l2),
                        "%s %s, (:%s{list: 1, 2]});" % (kw, base, l1),
                        "%s (:%s{list: [1, 2});" % (kw, l1),
                        "%s (:%s)-:%s]->(:%s);" % (kw, l1, rn, l2)])
    elif kind == "undirected":
        bad = r.choice(["%s (:%s)-[:%s]-(:%s);" % (kw, l1, rn, l2), "%s %s, (:%s)-[:%s]-(:%s);" % (kw, base, l1, rn, l2),
                        "%s %s, (:%s)-[:%s]->(:%s)-[:%s]-(:%s);" % (kw, base, l1, rn, l2, rn, l1)])
    elif kind == "bidirected":
        bad = r.choice(["%s (:%s)<-[:%s]->(:%s);" % (kw, l1, rn, l2), "%s %s, (:%s)<-[:%s]->(:%s);" % (kw, base, l1, rn, l2),
                        "%s %s, (:%s)<-[:%s]-(:%s)<-[:%s]->(:%s);" % (kw, base, l1, rn, l2, rn, l1)])
    elif kind == "lower":
        bad = "%s %s, (:%s)-[:%s]->(:%s);" % (kw, base, l1, r.choice(["knows", "Likes", "rEL"]), l2)
    elif kind == "handle":
        bad = r.choice(["%s (h:%s)-[:%s]->(h:%s);" % (kw, l1, rn, l2),
                        "%s (h:%s)-[h:%s]->(:%s);" % (kw, l1, rn, l2),
                        "%s %s, (z:%s)-[:%s]->(:%s)-[:%s]->(z:%s);" % (kw, base, l1, rn, l2, rn, l1)])
    elif kind == "clause":
        w = r.choice(["MAEK", "KAME", "AMKE", "maek", "EKAM"])
        bad = "%s %s;" % (w, base)
    elif kind == "semicolon":
        bad = "%s %s" % (kw, base)
        if r.random() < 0.5 and good:
            pre, good = bad + "\n", good
            bad = ""
    elif kind == "propcolon":
        bad = r.choice(["%s (:%s{tag 1});" % (kw, l1), "%s %s, (:%s{tag: 1 w: 2});" % (kw, base, l1),
                        "%s (:%s)-[:%s{since 4}]->(:%s);" % (kw, l1, rn, l2)])
    elif kind == "propvalue":
        v = r.choice(["True", "False", "Null", "NULL", "TRUE"] + [
            q + w + q for q in "'\"" for w in ("Null", "None", "none", "true", "True", "false", "False")])
        bad = r.choice(["%s (:%s{flag: %s});" % (kw, l1, v), "%s %s, (:%s{w: 1, flag: %s});" % (kw, base, l1, v),
                        "%s (:%s)-[:%s{flag: %s}]->(:%s);" % (kw, l1, rn, v, l2)])
    elif kind == "longint":                     # more digits than Python turns into a number
        v = r.choice("123456789") * r.choice([4301, 5000, 9000])
        bad = r.choice(["%s (:%s{w: %s});" % (kw, l1, v), "%s %s, (:%s{tag: 1, w: %s});" % (kw, base, l1, v),
                        "%s (:%s)-[:%s{w: %s}]->(:%s);" % (kw, l1, rn, v, l2)])
    elif kind in ("hugefloat", "emptyvalue", "halfvalue"):
        if kind == "hugefloat":                 # would become infinity
            v = r.choice("123456789") * r.choice([310, 400, 5000]) + r.choice([".0", ".25"])
            v = r.choice([v, v, "[1, %s]" % v, "[1e999]"])
        elif kind == "emptyvalue":
            v = r.choice(["", " ", "  "])
        else:                                   # only its start is a value
            v = r.choice(["12abc", "1.2.3", "5.", "1_000", "0x1F", "1e5", "7up", "2 x", "[1]x"])
        bad = r.choice(["%s (:%s{w: %s});" % (kw, l1, v), "%s %s, (:%s{tag: 1, w: %s});" % (kw, base, l1, v),
                        "%s (:%s)-[:%s{w: %s}]->(:%s);" % (kw, l1, rn, v, l2)])
    elif kind == "badkey":
        bad = r.choice(["%s (:%s{: 1}), %s;" % (kw, l1, base), "%s %s, (:%s{x y: 1});" % (kw, base, l1),
                        "%s (:%s)-[:%s{w: 1, a b: 2}]->(:%s);" % (kw, l1, rn, l2), "%s (:%s{@: 1});" % (kw, l1),
                        "%s (:%s{'x': 1}), %s;" % (kw, l1, base)])
    elif kind == "neg":
        bad = r.choice(["%s (:%s{w: -1});" % (kw, l1), "%s %s, (:%s{w: 1!});" % (kw, base, l1),
                        "%s (:%s{w: 1+2}), %s;" % (kw, l1, base), "%s (:%s{note: 'a/b'});" % (kw, l1),
                        "%s (:%s{note: 'what?'}), %s;" % (kw, l1, base)])
    elif kind == "nolabel":
        bad = r.choice(["%s (%s);" % (kw, l1), "%s %s, (%s);" % (kw, base, l1), "%s (:), %s;" % (kw, base),
                        "%s (:%s)-[:%s]->(%s);" % (kw, l1, rn, l2)])
    elif kind == "listvalue":
        v = r.choice(["[b'a']", "[1j]", "[1 2]", "['a' 2]", "[a]", "[1, b'x', 2]"])
        if r.random() < 0.3:
            xs = [r.choice(["1", "'a'", "true", "2.5", "null"]) for _ in range(r.choice([3, 4, 6, 11]))]
            v = "[" + ", ".join(xs + [r.choice(["b'a'", "1j", "a"])]) + "]"
        if r.random() < 0.2:
            v = "[1], " + ", ".join("k%d: [%d, 'b']" % (i, i) for i in range(r.choice([1, 2, 4]))) + ", z: " + v
        bad = r.choice(["%s (:%s{list: %s});" % (kw, l1, v), "%s %s, (:%s{tags: %s});" % (kw, base, l1, v),
                        "%s (:%s)-[:%s{list: %s}]->(:%s);" % (kw, l1, rn, v, l2)])
    elif kind == "report":
        bad = "%s %s;\n%s n;" % (kw, base, r.choice(["REPORT", "report"]))
    elif kind == "reporthandle":
        bad = "%s %s;\nFIND (zz9:%s);\nREPORT y;" % (kw, base, l1)
        if r.random() < 0.6:                    # several handles, one of them not reported
            hs = ["zz1", "zz2", "zz3", "zz4", "zz5"][:r.choice([2, 3, 3, 5])]
            fp = "(%s:%s)" % (hs[0], l1)
            if len(hs) == 2:
                fp = r.choice(["(%s:%s)-[:%s]->(%s:%s)" % (hs[0], l1, rn, hs[1], l2),
                               "(:%s)<-[%s:%s]-(%s:%s)" % (l1, hs[0], rn, hs[1], l2)])
            if len(hs) > 2:
                fp += "-[%s:%s]->(%s:%s)" % (hs[1], rn, hs[2], l2)
            if len(hs) > 3:
                fp += "<-[%s:%s]-(%s:%s)" % (hs[3], rn, hs[4], l1)
            hs.remove(r.choice(hs))
            bad = "%s %s;\nFIND %s;\nREPORT %s;" % (kw, base, fp, ", ".join(hs))
    elif kind == "finds":
        bad = "%s %s;\nFIND (:%s);\nFIND (:%s);" % (kw, base, l1, l2)
    elif kind == "findbad":
        bad = r.choice(["%s %s;\nFIND (:%s#);" % (kw, base, l1), "%s %s;\nFIND (:%s)-[:R]-(:%s);" % (kw, base, l1, l2),
                        "%s %s;\nFIND (h:%s)-[:R]->(h:%s);" % (kw, base, l1, l2),
                        "%s %s;\nFIND (:%s{w 1});" % (kw, base, l1),
                        "%s %s;\nFNID (:%s);" % (kw, base, l1)])
    elif kind == "findvalue":
        bad = "%s %s;\nFIND (:%s{flag: %s});" % (kw, base, l1, r.choice(["True", "'None'", "Null"]))
    elif kind == "garbage":
        bad = r.choice(["", "hello", ";", "(:%s);" % l1, "DROP (:%s);" % l1, "MAKE", "MAKE;", "MAKE ();",
                        "make (    );"])
        good = []
    elif kind == "joined":
        bad = r.choice(["%s %s! (:%s);" % (kw, base, l1), "%s %s ? (:%s);" % (kw, base, l1),
                        "%s %s, (:%s)-[:%s]->;" % (kw, base, l1, rn) + "\nMAKE (:%s);" % l2 if False else
                        "%s %s, -[:%s]->(:%s);" % (kw, base, rn, l1)])
    parts = [lang.statement(s) for s in good]
    if bad:
        if r.random() < 0.7:
            parts.append(bad)
        else:
            parts.insert(0, bad)
    if kind in ("report", "reporthandle", "finds", "findbad", "findvalue", "semicolon", "clause") and parts:
        sep = "\n"
    return {"text": pre + sep.join(parts) + post, "refuse": True, "kind": kind, "stmts": []}


KINDS = ["char", "paren", "curly", "square", "undirected", "bidirected", "lower", "handle", "clause",
         "semicolon", "propcolon", "propvalue", "neg", "nolabel", "listvalue", "report",
         "reporthandle", "finds", "findbad", "findvalue", "garbage", "joined", "longint",
         "hugefloat", "emptyvalue", "halfvalue", "badkey"]


# ---- finds --------------------------------------------------------------------------
def find_for(g, pats):
    """A FIND for something that was (probably) made, weakened at random."""
    r = g.rng
    p = json.loads(json.dumps(r.choice(pats)))
    n = len(p["n"])
    i = r.randint(0, n - 1)
    j = r.randint(i, n - 1) if r.random() < 0.5 else n - 1
    if r.random() < 0.4:
        i = 0
    p = {"n": p["n"][i:j + 1], "r": p["r"][i:j]}
    keep = r.choice([0, 0, 0.5, 1])
    for x in p["n"] + p["r"]:
        if x["p"] is not None:
            if r.random() >= keep:
                x["p"] = None
            elif r.random() < 0.5:
                x["p"] = [kv for kv in x["p"] if r.random() < 0.6]
    for x in p["r"]:
        if x["p"] == []:
            x["p"] = None
        if r.random() < 0.25:
            x["l"] = ""
    if r.random() < 0.3:
        p["n"].reverse()
        p["r"].reverse()
        for x in p["r"]:
            x["d"] = "<" if x["d"] == ">" else ">"
    g.hn = 0
    for x in p["n"] + p["r"]:
        x["h"] = g.handle()
    return g.find_query(p)


def find_none(g):
    """A FIND for labels or names nothing ever had."""
    r = g.rng
    p = g.pat(nodes=r.choice([1, 2, 3]), tagged=False)
    for x in p["n"] + p["r"]:
        x["p"] = None
    if len(p["n"]) > 1 and r.random() < 0.5:
        for x in p["r"]:
            x["l"] = r.choice(["NEVER", "NOWHERE", "KNOWSX"])
        if r.random() < 0.4:                 # only some of them named
            for x in r.sample(p["r"], len(p["r"]) - 1):
                x["l"] = ""
    else:
        for x in p["n"]:
            x["l"] = r.choice(["Nobody", "Ghost", "Absent_1", "person", "CITY", "Perso", "Personn"])
    return g.find_query(p)


# ---- plan skeletons -------------------------------------------------------------------
def base(r, dbs=("a",), **kn):
    init = {"dbs": [["", d] for d in dbs]}
    if r.random() < 0.12:                 # a DBMS with a past: wiped, its numbers used up to here
        init["wn0"] = r.choice([8, 9, 96, 99, 995, 999, 9_998, 65_534, 99_999, 999_999, 10 ** 9])
    return {"init": init, "knobs": knobs(r, **kn), "phases": []}


def clean_tail(r, g, plan, db=None, finds=True):
    """Faults have stopped: one MAKE and one FIND must work at the first attempt."""
    if db is None:
        for _, name in plan["init"]["dbs"]:
            clean_tail(r, g, plan, name, finds)
        return
    m = g.query(stmts=1, find=0)
    ops = [q(m, db)]
    pats = lang.makes(m)
    if finds:
        ops.append(q(find_for(g, pats), db))
    ops.append(q(g.query(find=0), db))
    ops.append({"k": "load", "db": db})
    plan["phases"].append(phase(ops))


def mixed_history(r, g, plan, n, dbs=("a",), crash_p=0.3, io_p=0.3, refuse_p=0.15, conc_p=0.3,
                  host_p=0.25, loads=True, soft_p=0.1, int_stay=0.5, wipe_p=0):
    """n phases of anything that may happen to a deployment."""
    pats = []
    for _ in range(n):
        k = r.choice([2, 2, 3, 4]) if r.random() < conc_p else 1
        ss = []
        for i in range(k):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                db = r.choice(dbs)
                x = r.random()
                if wipe_p and r.random() < wipe_p:
                    ops.append({"k": "wipe", "db": db, "sure": r.random() < 0.8,
                                "store": r.choice(["labels", "rels", "names"])})
                    continue
                if x < refuse_p:
                    ops.append(q(refused(g), db))
                    continue
                if loads and x < refuse_p + 0.08:
                    ops.append(load(r, db, 0.25 if io_p else 0))
                    continue
                if pats and x < refuse_p + 0.16:
                    ops.append(q(find_for(g, pats), db))
                    continue
                o = q(g.query(), db)
                pats += lang.makes(o["q"])
                y = r.random()
                if y < crash_p:
                    o["faults"] = [crash(r)]
                    if r.random() >= int_stay:
                        o["exit_on_int"] = True
                elif y < crash_p + io_p:
                    o["faults"] = [ioerr(r)] + ([ioerr(r)] if r.random() < 0.1 else [])
                elif y < crash_p + io_p + soft_p:
                    o["faults"] = [soft(r)]
                ops.append(o)
            s = {"id": i, "ops": ops}
            if k > 1 and r.random() < 0.2:
                s["delay"] = r.choice([0.001, 0.01, 0.1])
            ss.append(s)
        ph = {"sessions": ss}
        if r.random() < host_p:
            ph["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
        plan["phases"].append(ph)
    return pats


def wide(r):
    """A DBMS with hundreds of labels and names, made by a few large queries."""
    n = r.choice([40, 150, 400, 1200])
    g = small(r, labels=["L%d" % i for i in range(n)], rels=["N%d" % i for i in range(n)], max_stmts=1, props=0,
              max_nodes=r.choice([1, 2, 3]), tags=0, handles=0, bulk=0, find=0, again=0, unnamed=0)
    plan = base(r, bufsize=8192, chunk=8192)
    plan["knobs"].pop("short_io", None)
    pats = []
    for _ in range(r.choice([1, 2])):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            m = {"stmts": [g.make(pats=r.choice([20, 60, n // 2, n]))], "sep": " "}
            pats += lang.makes(m)
            ops.append(q(m))
            if r.random() < 0.3:
                ops[-1]["faults"] = [crash(r) if r.random() < 0.5 else ioerr(r)]
            for _ in range(r.choice([0, 2, 4])):
                ops.append(q(find_for(g, pats)) if r.random() < 0.7 else load(r))
        plan["phases"].append(phase(ops))
        if r.random() < 0.2:
            plan["phases"][-1]["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
    plan["phases"].append(phase([q(find_for(g, pats)) for _ in range(5)] + [q(g.query(), "a")]))
    return plan


# ---- one generator per property ----------------------------------------------------------
def p01(r):
    g = lang.Gen(r, {"props": r.choice([0.3, 0.8, 1]), "max_pats": r.choice([1, 2, 4, 6])})
    dbs = some_names(r, r.choice([1, 1, 2]), NAMES)
    plan = base(r, dbs)
    long = r.random() < 0.06
    if long:
        g.feat.update(props=0, max_stmts=1, max_pats=r.choice([1, 3]), fmt=False)
    plan["knobs"]["strategy"] = ["serial"]
    made = []
    for _ in range(1 if long else r.choice([1, 2, 3, 4, 6])):
        ops = []
        for _ in range(r.randint(25, 45) if long else r.randint(1, 6)):
            db = r.choice(dbs)
            x = r.random()
            if x < 0.08:
                ops.append(q(refused(g), db))
            elif x < 0.14 and made:
                ops.append(q(find_for(g, made), db))
            elif x < 0.18:
                ops.append({"k": "load", "db": db, "what": r.choice(["database", "labels", "names", "rels"])})
            elif x < 0.2:
                ops.append({"k": "jump", "d": r.choice([-1e5, 1e5])})
            else:
                o = q(g.query(), db)
                made += lang.makes(o["q"])
                ops.append(o)
        plan["phases"].append(phase(ops))
    return plan


def small(r, **kw):
    f = {"props": r.choice([0, 0.3]), "max_pats": r.choice([1, 2, 3]), "fmt": False}
    f.update(kw)
    return lang.Gen(r, f)


def p02(r):
    g = small(r)
    dbs = some_dbs(r)
    plan = base(r, dbs)
    mixed_history(r, g, plan, r.randint(1, 5), crash_p=r.choice([0.3, 0.6, 0.9]), io_p=0,
                  conc_p=r.choice([0, 0, 0.4]), host_p=r.choice([0, 0.3, 0.8]), dbs=dbs, refuse_p=0.05)
    if r.random() < 0.5:
        plan["phases"].append({"sessions": [], "host": [{"k": "power", "seed": r.randint(0, 1 << 30)}]})
    clean_tail(r, g, plan)
    if r.random() < 0.3:
        plan["phases"].append({"sessions": [], "host": [{"k": "power", "seed": r.randint(0, 1 << 30)}]})
    return plan


def p03(r):
    g = small(r)
    dbs = some_dbs(r)
    plan = base(r, dbs)
    mixed_history(r, g, plan, r.randint(1, 5), crash_p=r.choice([0.2, 0.5, 0.9]),
                  io_p=r.choice([0, 0.3, 0.5]), conc_p=r.choice([0, 0, 0.4]),
                  host_p=r.choice([0, 0.3, 0.6]), dbs=dbs, refuse_p=r.choice([0, 0.1, 0.4]))
    clean_tail(r, g, plan)
    return plan


def p04(r):
    g = small(r, max_nodes=r.choice([1, 2, 3]))
    dbs = some_dbs(r)
    plan = base(r, dbs)
    n = r.randint(1, 5)
    mixed_history(r, g, plan, n, crash_p=r.choice([0, 0.3, 0.7]), io_p=r.choice([0, 0.3]),
                  conc_p=r.choice([0, 0.5, 1]), host_p=r.choice([0, 0.4]),
                  dbs=dbs, refuse_p=r.choice([0, 0.2]))
    if r.random() < 0.25:
        plan["phases"].insert(r.randint(1, len(plan["phases"])),
                              phase([{"k": "wipe", "db": "a", "store": "database", "sure": True}]))
    clean_tail(r, g, plan)
    return plan


def p05(r):
    g = small(r, max_nodes=r.choice([2, 3, 3]), unnamed=r.choice([0, 0.3]))
    dbs = some_dbs(r)
    plan = base(r, dbs)
    if r.random() < 0.35:                       # exactness: nothing fails
        plan["knobs"]["strategy"] = strategy(r)
        mixed_history(r, g, plan, r.randint(1, 4), crash_p=0, io_p=0, conc_p=r.choice([0, 0.6]),
                      host_p=0, dbs=dbs, refuse_p=r.choice([0.1, 0.5]))
    else:
        mixed_history(r, g, plan, r.randint(1, 5), crash_p=r.choice([0, 0.3, 0.8]),
                      io_p=r.choice([0, 0.3, 0.6]), conc_p=r.choice([0, 0.4]),
                      host_p=r.choice([0, 0.4]), dbs=dbs, refuse_p=0.1,
                      wipe_p=r.choice([0, 0, 0.1]))
    clean_tail(r, g, plan)
    return plan


def unsynced(r, *ops, n=5):
    """Operations the last of which meets errors in syncing; then the power fails."""
    ops = list(ops)
    ops[-1]["faults"] = [{"k": "eio", "c": "sync", "n": r.randint(1, n), "sticky": r.random() < 0.5}]
    return phase(ops, host=[{"k": "power", "seed": r.randint(0, 1 << 30)}])


def p06(r):
    g = small(r)
    dbs = some_dbs(r)
    plan = base(r, dbs)
    for _ in range(r.randint(1, 3)):
        if r.random() < 0.15:                       # what could not be synced may be gone at power loss
            ops = [q(g.query(find=0), r.choice(dbs)) for _ in range(r.choice([1, 2]))]
            plan["phases"].append(unsynced(r, *ops, n=10))
            continue
        ops = []
        for _ in range(r.randint(1, 5)):
            o = q(refused(g) if r.random() < 0.05 else g.query(), r.choice(dbs))
            x = r.random()
            if x < 0.55:
                o["faults"] = [ioerr(r)]
                if r.random() < 0.25:
                    o["faults"].append(ioerr(r))
            elif x < 0.65:
                o["faults"] = [soft(r)]
            ops.append(o)
        plan["phases"].append(phase(ops))
        if r.random() < 0.15:
            plan["phases"][-1]["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
    clean_tail(r, g, plan)
    return plan


def p07(r):
    g = lang.Gen(r, {"props": r.choice([0, 0.5]), "max_pats": r.choice([1, 2, 3])})
    dbs = some_names(r, r.choice([1, 1, 2]), NAMES)
    plan = base(r, dbs)
    plan["knobs"]["strategy"] = ["serial"]
    for _ in range(r.choice([1, 1, 2])):
        ops = []
        for _ in range(r.randint(2, 7)):
            ops.append(q(refused(g) if r.random() < 0.65 else g.query(), r.choice(dbs)))
        plan["phases"].append(phase(ops))
    return plan


def turns(r):
    """Sessions that change one DBMS strictly by turns, each alone for a while; texts of one
    length, so that a file that was changed is often as long as before."""
    g = small(r, labels=r.choice([["A", "B", "a"], ["Cat", "Dog", "Owl", "cat"]]), rels=["R", "S", "T"],
              max_nodes=r.choice([1, 1, 2]), max_pats=1, max_stmts=1, props=0, find=0, handles=0, fmt=False,
              tags=r.choice([0, 1.0]))
    plan = base(r)
    n = r.choice([2, 2, 3])
    ss = [[] for _ in range(n)]
    pats = []
    for turn in range(r.randint(6, 12)):
        who = r.randrange(n)
        for i in range(n):
            if i == who:
                for _ in range(r.choice([1, 1, 2])):
                    x = r.random()
                    if x < 0.3:
                        ss[i].append({"k": "wipe", "db": "a", "sure": True,
                                      "store": r.choice(["database", "database", "labels", "names", "rels"])})
                    elif x < 0.85 or not pats:
                        ss[i].append(q(g.query()))
                        pats = (pats + lang.makes(ss[i][-1]["q"]))[-2:]
                    elif x < 0.95:
                        ss[i].append(q(find_for(g, pats)))
                    else:
                        ss[i].append(load(r, "a", 0))
            ss[i].append({"k": "until", "t": 100.0 * (turn + 1)})
    plan["knobs"]["tick"] = 0.0005
    plan["phases"].append(phase(*ss))
    clean_tail(r, g, plan)
    return plan


def p08(r):
    if r.random() < 0.2:
        return turns(r)
    g = small(r, tags=1.0, find=0.15)
    dbs = some_dbs(r)
    plan = base(r, dbs)
    pats = []
    for _ in range(r.choice([1, 1, 2])):
        ss = []
        for i in range(r.choice([2, 2, 2, 3, 3, 4, 5])):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.random()
                if x < 0.1:
                    ops.append(load(r, r.choice(dbs), 0.05))
                elif x < 0.2 and pats:
                    ops.append(q(find_for(g, pats), r.choice(dbs)))
                else:
                    o = q(g.query(), r.choice(dbs))
                    pats += lang.makes(o["q"])
                    y = r.random()
                    if y < 0.05:
                        o["faults"] = [crash(r, ("kill", "sigint"))]
                    elif y < 0.15:
                        o["faults"] = [soft(r)]
                    elif y < 0.2:
                        o = q(refused(g), r.choice(dbs))
                    ops.append(o)
            s = {"id": i, "ops": ops}
            if r.random() < 0.25:
                s["delay"] = r.choice([0.0005, 0.003, 0.02])
            ss.append(s)
        plan["phases"].append({"sessions": ss})
    clean_tail(r, g, plan)
    return plan


def twins(r):
    """One long session whose stores keep changing while their sizes stay the same."""
    g = small(r, labels=r.choice([["A", "B", "a"], ["Cat", "Dog", "Owl", "cat"]]), rels=["R", "S", "T"], max_nodes=1,
              max_pats=1, max_stmts=1, props=0, find=0, handles=0, tags=r.choice([0, 1.0]))
    g.feat["max_nodes"] = r.choice([1, 1, 2])
    plan = base(r)
    for _ in range(r.choice([1, 2])):
        ops, pats = [], []
        for _ in range(r.randint(6, 14)):
            x = r.random()
            if x < 0.2:
                ops.append({"k": "wipe", "db": "a", "sure": True,
                            "store": r.choice(["labels", "labels", "names", "rels", "database"])})
            elif x < 0.55 or not pats:
                o = q(g.query())
                pats = (pats + lang.makes(o["q"]))[-2:]
                ops.append(o)
            else:
                ops.append(q(find_for(g, pats)))
        plan["phases"].append(phase(ops))
    return plan


def p09(r):
    if r.random() < 0.1:
        return twins(r)
    g = small(r, max_nodes=r.choice([1, 2, 3, 3]), props=r.choice([0, 0.5]), find=r.choice([0, 0.3]))
    dbs = some_dbs(r)
    plan = base(r, dbs)
    calm = r.random() < 0.4
    pats = mixed_history(r, g, plan, r.randint(1, 3), crash_p=0 if calm else 0.3, io_p=0 if calm else 0.3,
                         conc_p=r.choice([0, 0.3]), host_p=0 if calm else 0.3, dbs=dbs, refuse_p=0.15,
                         wipe_p=r.choice([0, 0, 0.15]))
    for _ in range(r.choice([1, 2])):
        ss = []
        for i in range(r.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if x < 0.04:
                    o = {"k": "wipe", "db": r.choice(dbs), "sure": True, "store": r.choice(["labels", "names"])}
                elif x < 0.2 or not pats:
                    o = q(g.query(find=0.5), r.choice(dbs))
                    pats += lang.makes(o["q"])
                elif x < 0.75:
                    o = q(find_for(g, pats), r.choice(dbs))
                else:
                    o = q(find_none(g), r.choice(dbs))
                ops.append(o)
            ss.append({"id": i, "ops": ops})
        plan["phases"].append({"sessions": ss})
    return plan


def p10(r):
    g = small(r, tags=1.0, max_nodes=r.choice([1, 2, 3]))
    plan = base(r, tick=r.choice([0.0005, 0.01, 0.5]))
    for _ in range(r.choice([1, 2, 3])):
        ss = []
        for i in range(r.choice([1, 1, 2])):
            ops = []
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < 0.2:
                    ops.append({"k": "jump", "d": r.choice([-86400.0 * 400, -3601.0, -1.0, 0.25, 3600.0,
                                                            86400.0 * 30, 1e8])})
                if x > 0.8:
                    ops.append({"k": "sleep", "d": r.choice([0.5, 60.0, 3600.0, 86400.0 * 7])})
                o = q(g.query())
                if r.random() < 0.2:
                    o["faults"] = [soft(r)]
                elif r.random() < 0.1:
                    o["faults"] = [ioerr(r)]
                elif r.random() < 0.05:
                    o["faults"] = [crash(r)]
                ops.append(o)
            ss.append({"id": i, "ops": ops})
        ph = {"sessions": ss}
        if r.random() < 0.3:
            ph["host"] = [{"k": "jump", "d": r.choice([-1e6, 1e6, 7200.0])}]
        plan["phases"].append(ph)
    return plan


def create(name, d="", faults=None, **kw):
    o = {"k": "create", "db": name, "dir": d}
    if faults:
        o["faults"] = faults
    o.update(kw)
    return o


def p11(r):
    g = small(r, max_stmts=1)
    names = some_names(r, r.choice([1, 1, 2]), NAMES + ODD[:6])
    if r.random() < 0.08:
        names = r.sample(r.choice(BLANKS), 2)
    plan = {"init": {"dbs": [], "dbms_dir": r.random() < 0.8}, "knobs": knobs(r), "phases": []}
    if not plan["init"]["dbms_dir"]:
        plan["knobs"]["fresh_import"] = True
    d = r.choice(["", "", "o"])
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < 0.12:
            plan["phases"].append(unsynced(r, create(r.choice(names), d), n=9))
            continue
        ss = []
        for i in range(r.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 1, 2])):
                nm = r.choice(names)
                x = r.random()
                fl = None
                if x < 0.35:
                    fl = [crash(r, op="create")]
                elif x < 0.6:
                    fl = [ioerr(r, op="create")]
                ops.append(create(nm, d, fl, via=r.choice(["api", "api", "input"]),
                                  default=(d == "" and r.random() < 0.3)))
                if r.random() < 0.1:
                    ops.append({"k": "part", "db": nm, "dir": d, "store": r.choice(["database", "indexes", "wn"])})
                    if r.random() < 0.3:
                        ops[-1]["faults"] = [crash(r, op="create") if r.random() < 0.5 else ioerr(r, op="create")]
                if r.random() < 0.3:
                    ops.append(q(g.query(find=0), nm, dir=d))
            ss.append({"id": i, "ops": ops})
        ph = {"sessions": ss}
        if r.random() < 0.35:
            ph["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
        plan["phases"].append(ph)
    ops = []
    for nm in names:
        ops.append(create(nm, d))
        ops.append(q(g.query(find=0), nm, dir=d))
        ops.append({"k": "list", "dir": d})
    plan["phases"].append(phase(ops))
    if r.random() < 0.3:
        plan["phases"][-1]["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
    return plan


WEIRD = ["", ".", "..", "../x", "a/../b", "/sim/evil", "a/b", "../../sim/evil"]


def p12(r):
    g = small(r, max_stmts=1)
    pool = NAMES[:4] + r.sample(ODD, 3) + (r.sample(GLOBBY, 3) if r.random() < 0.6 else [])
    names = some_names(r, r.choice([2, 3, 4]), pool)
    if r.random() < 0.15:
        names = list(r.choice(BLANKS))
        r.shuffle(names)
    if r.random() < 0.4 and "a" not in names:
        names.append("a")
    plan = {"init": {"dbs": [["", n] for n in names], "dbms_dir": True}, "knobs": knobs(r), "phases": []}
    strays(r, plan)
    for n in names[:2]:
        plan["phases"].append(phase([q(g.query(find=0), n)]))
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < 0.1:
            nm = r.choice(names)
            plan["phases"].append(unsynced(r, {"k": "delete", "db": nm} if r.random() < 0.7 else create(nm)))
            continue
        ss = []
        own = list(names)
        r.shuffle(own)
        for i in range(r.choice([1, 1, 2])):
            mine = own[i::2] if r.random() < 0.7 else own
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                nm = r.choice(mine or own)
                x = r.random()
                fl = None
                y = r.random()
                if y < 0.2:
                    fl = [crash(r, op="create")]
                elif y < 0.4:
                    fl = [ioerr(r, op="create")]
                if x < 0.4:
                    o = {"k": "delete", "db": nm}
                    if fl:
                        for f in fl:
                            if f["c"] == "any":
                                f["n"] = r.randint(1, 14)
                            elif r.random() < 0.4:
                                f["c"], f["n"] = "dir", r.randint(1, 4)
                elif x < 0.55:
                    o = create(nm)
                elif x < 0.62:
                    o = {"k": r.choice(["create", "delete"]), "db": r.choice(WEIRD), "weird": 1}
                    fl = None
                elif x < 0.7:
                    o = {"k": "wipe", "db": nm, "store": r.choice(["database", "labels", "rels", "names"]),
                         "sure": r.random() < 0.7}
                else:
                    o = q(g.query(), nm)
                if fl:
                    o["faults"] = fl
                ops.append(o)
                if o["k"] == "delete" and r.random() < 0.5:
                    ops.append({"k": "delete", "db": nm})
            ss.append({"id": i, "ops": ops})
        ph = {"sessions": ss}
        if r.random() < 0.2:
            ph["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
        plan["phases"].append(ph)
    if r.random() < 0.3:                            # what is damaged can be deleted too
        plan["phases"][-1].setdefault("host", []).append(dict(damage(r), db=names[0]))
        plan["knobs"].pop("locales", None)
    ops = []
    for n in names[:2]:
        ops += [{"k": "delete", "db": n}, create(n), q(g.query(find=0), n)]
    plan["phases"].append(phase(ops))
    return plan


def p13(r):
    g = small(r, max_nodes=r.choice([2, 3, 3]))
    plan = base(r, bufsize=r.choice([16, 32, 64, 256, 4096]), chunk=r.choice([16, 64, 8192]))
    for _ in range(r.choice([1, 2, 3])):
        ss = []
        for i in range(r.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                if i > 0 and r.random() < 0.5:
                    ops.append(load(r, main=3))
                else:
                    o = q(g.query())
                    x = r.random()
                    if x < 0.2:
                        o["faults"] = [crash(r)]
                    elif x < 0.4:
                        o["faults"] = [ioerr(r)]
                    elif x < 0.5:
                        o["faults"] = [soft(r)]
                    ops.append(o)
            ss.append({"id": i, "ops": ops})
        ph = {"sessions": ss}
        if r.random() < 0.3:
            ph["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
        plan["phases"].append(ph)
    clean_tail(r, g, plan)
    return plan


def shell_lines(r, g, fault_p, crash_p=0.0, pats=None, help_p=0.15, n=None):
    pats = pats if pats is not None else []
    lines = []
    long = n is None and r.random() < 0.01
    if long:                                     # much typed, hardly anything understood
        n = r.choice([30, 60, 130])
        fault_p = crash_p = 0
    for _ in range(n or r.randint(1, 6)):
        x = r.random()
        if long and r.random() < 0.95:
            x = help_p + r.random() * (0.3 - help_p)
        if x < help_p:
            lines.append({"t": "help", "text": r.choice(["help", "HELP", "Help"])})
            continue
        if x < 0.3:
            qq = refused(g)
            if r.random() < 0.15:
                qq = {"text": r.choice(["quit", "exit", "qq", "q q", "q;", "y", "n", "bye", "help me", "1", "?", "q;",
                                        ";q", "q.", "'q'", "(q)", ":q", "\uff51", "\uff48\uff45\uff4c\uff50", "help;", "-q"]),
                      "refuse": True, "kind": "garbage", "stmts": []}
            if "\n" in qq["text"] or qq["text"].strip().lower() in ("q", "help"):
                qq = g.query(find=0)
        elif x < 0.4 and pats:
            qq = find_for(g, pats)
        else:
            qq = g.query()
        one_line(qq)
        if qq.get("stmts") and r.random() < 0.15:
            helpful(r, qq)
        if any(s["c"] == "make" for s in qq.get("stmts", [])):
            pats += lang.makes(qq)
        ln = {"t": "q", "q": qq}
        y = r.random()
        if y < fault_p:
            ln["faults"] = [ioerr(r)]
        elif y < fault_p + crash_p:
            ln["faults"] = [crash(r)]
        lines.append(ln)
    lines.append({"t": "quit"})
    return lines


def one_line(qq):
    """The terminal delivers one line at a time."""
    if "text" in qq:
        return
    qq["sep"] = " "
    qq["stmts"] = [s for s in qq["stmts"] if s["c"] != "report"]
    for k in ("lead", "tail"):
        if "\n" in qq.get(k, ""):
            qq[k] = " "


def helpful(r, qq):
    """A query that merely mentions the word help, or q."""
    for s in qq["stmts"]:
        for p in s["pats"]:
            for n in p["n"]:
                if r.random() < 0.5:
                    if r.random() < 0.5:
                        n["l"] = r.choice(["Helper", "Help", "Q", "q", "help"])
                    elif n["p"] is not None:
                        n["p"] = [kv for kv in n["p"] if kv[0] != "note"] + [
                            ["note", r.choice(["help", "no help", "helpful", "q", "a q b", "q q", "say help"])]]


def p14(r):
    g = small(r, max_nodes=3)
    names = some_names(r, r.choice([1, 2]), NAMES)
    have = r.random() < 0.6
    plan = {"init": {"dbs": [["", n] for n in names] if have else [],
                     "dbms_dir": have or r.random() < 0.5},
            "knobs": knobs(r, strategy=["sticky", 0.2]), "phases": []}
    if not plan["init"]["dbms_dir"]:
        plan["knobs"]["fresh_import"] = True
    pats = []
    made = set(names) if have else set()
    for _ in range(r.choice([1, 2, 2, 3])):
        ss = []
        for i in range(r.choice([1, 1, 1, 2])):
            nm = r.choice(names)
            if nm in made:
                enter = [r.choice(["y", "yes"]), {"pick": nm}]
            else:
                enter = ["n", nm]
                made.add(nm)
                if i:
                    continue
            sh = {"k": "shell", "db": nm, "enter": enter,
                  "lines": shell_lines(r, g, r.choice([0, 0.3, 0.6]), r.choice([0, 0, 0.1]), pats)}
            ss.append({"id": i, "ops": [sh]})
            if enter[0] == "n":
                break
        ph = {"sessions": ss}
        if r.random() < 0.2:
            ph["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
        plan["phases"].append(ph)
    return plan


def damage(r):
    h = {"k": "damage", "db": "a", "store": r.choice(["database", "indexes", "wn"]),
         "how": r.choice(["empty", "trunc", "garbage", "zeros", "tail", "twice", "bytes", "hole", "word", "missing"]),
         "f": round(r.random(), 2)}
    if h["how"] == "word":
        h["word"] = r.choice(["ten", "0x1F", "1.5", "1e3", "--", "7;", "None", "[7]", "{}", "1,000", "1 000"])
    return h


def p15(r):
    g = small(r, max_stmts=2)
    plan = base(r)
    plan["knobs"].pop("locales", None)          # what parses depends on it
    plan["phases"].append(phase([q(g.query(find=0)) for _ in range(r.choice([1, 2, 3]))]))
    for _ in range(r.choice([1, 2])):
        hs = [damage(r)]
        if r.random() < 0.15:
            hs.append({"k": "damage", "db": "a", "store": r.choice(["database", "indexes", "wn"]),
                       "how": r.choice(["empty", "garbage"])})
        elif r.random() < 0.1:
            hs = [{"k": "damage", "db": "a", "store": s, "how": "missing"}
                  for s in r.sample(["database", "indexes", "wn"], r.choice([2, 3, 3]))]
        plan["phases"][-1]["host"] = hs
        ss = []
        for i in range(r.choice([1, 1, 2])):
            ops = []
            for _ in range(r.choice([1, 2, 3])):
                o = q(g.query(find=r.choice([0, 0, 0.5])))
                if r.random() < 0.1:
                    o = q(refused(g))
                elif r.random() < 0.25:
                    o["faults"] = [r.choice([ioerr(r), soft(r), crash(r)])]
                ops.append(o)
            ss.append({"id": i, "ops": ops})
        ph = {"sessions": ss, "host": [{"k": "restore", "db": "a"}]}
        plan["phases"].append(ph)
        ops = [q(g.query(find=0)) for _ in range(r.choice([1, 2]))] + [{"k": "load", "db": "a"}]
        plan["phases"].append(phase(ops))
    return plan


def p16(r):
    g = small(r, max_stmts=1)
    plan = base(r, ("a", "b") if r.random() < 0.3 else ("a",))
    dbs = [d for _, d in plan["init"]["dbs"]]
    half = r.random() < 0.15                        # a DBMS with some of its files only
    if half:
        plan["phases"].append(phase([create("h"), {"k": "delete", "db": "h", "faults": [
            {"k": "kill", "c": "dir", "n": r.randint(1, 3)}]}]))
    for _ in range(r.choice([1, 2])):
        ss = []
        for i in range(r.choice([2, 3, 4, 5])):
            ops = []
            if half and r.random() < 0.5:
                ops.append({"k": "open", "db": r.choice(dbs), "dir": "", "before": [{"pick": "h", "half": True}]})
            for _ in range(r.choice([1, 2, 3])):
                o = q(g.query(), r.choice(dbs))
                if r.random() < 0.15:
                    o = q(find_none(g) if r.random() < 0.5 else find_for(g, [g.pat()]), o["db"])
                x = r.random()
                if x < 0.2:
                    o["faults"] = [crash(r, ("kill", "sigint"))]
                elif x < 0.3:
                    o["faults"] = [{"k": "stall", "c": "any", "n": r.randint(1, EST["q"]),
                                    "d": r.choice([1.0, 100.0, 1e5])}]
                elif x < 0.5:
                    o["faults"] = [ioerr(r)]
                elif x < 0.55:
                    o = q(refused(g), o["db"])
                ops.append(o)
            ss.append({"id": i, "ops": ops})
        plan["phases"].append({"sessions": ss})
    clean_tail(r, g, plan)
    return plan


def p17(r):
    g = small(r, max_stmts=1, max_pats=1)
    many = r.random() < 0.15
    pool = NAMES + ODD + GLOBBY[:3]
    names = ["d%02d" % i for i in range(r.randint(24, 60) if r.random() < 0.95 else r.choice([101, 130, 704]))] if many else some_names(r, r.randint(1, 6), pool)
    if not many and r.random() < 0.08:
        names = list(r.choice(TRAILING))
        r.shuffle(names)
    d = r.choice(["", "", "", "o"])
    init = [] if not many else [[d, n] for n in names]
    plan = {"init": {"dbs": init, "dbms_dir": bool(init) or r.random() < 0.6}, "knobs": knobs(r), "phases": []}
    if not plan["init"]["dbms_dir"]:
        plan["knobs"]["fresh_import"] = True
    elif d == "":
        strays(r, plan)
    halves = []
    made = list(names) if many else []
    todo = [] if many else list(names)
    for ph_i in range(r.choice([2, 3, 4])):
        ops = []
        for _ in range(r.choice([1, 2, 3])):
            x = r.random()
            if todo and (x < 0.4 or not made):
                nm = todo.pop()
                if d == "" and r.random() < 0.3:
                    ops.append({"k": "shell", "db": nm, "enter": [r.choice(["n", "n", "no", "", "x"])] + answers(r, made) + [nm],
                                "lines": shell_lines(r, g, 0, n=1)})
                    if not made and not halves and r.random() < 0.5:
                        ops[-1].update(enter=[r.choice(["y", "yes"])] + answers(r, made) + [nm], none=True)
                elif r.random() < 0.2:
                    ops.append(create(nm, d, via="input", before=answers(r, made, 0.6)))
                else:
                    y = r.random()
                    fl = [crash(r, ("kill",), op="create")] if y < 0.12 else \
                        [ioerr(r, op="create")] if y < 0.2 else None
                    ops.append(create(nm, d, fl))
                    if fl:
                        continue
                made.append(nm)
            elif made and x < 0.5 and not many:
                nm = r.choice(made)
                o = {"k": "delete", "db": nm, "dir": d}
                if r.random() < 0.4:
                    o["faults"] = [{"k": r.choice(["kill", "kill", "eio"]), "c": "dir", "n": r.randint(1, 4)}]
                    halves.append(nm)
                made.remove(nm)
                ops.append(o)
            elif made and x < 0.62:
                ops.append({"k": "list", "dir": d})
            elif made:
                nm = r.choice(made) if r.random() < 0.7 else made[-1]
                if d == "" and r.random() < 0.5:
                    ops.append({"k": "shell", "db": nm, "enter": [r.choice(["y", "yes"])] + (
                        [{"wrong": r.choice(["zz9", "", "?", "a", nm, "AAAA"])}] if r.random() < 0.2 else []) + [{"pick": nm}],
                                "lines": shell_lines(r, g, 0, n=1)})
                else:
                    pre = [r.choice(["zz9", "", "?"])] if r.random() < 0.2 else []
                    if halves and r.random() < 0.6:
                        pre.append({"pick": r.choice(halves), "half": True})
                    ops.append({"k": "open", "db": nm, "dir": d, "before": pre,
                                "default": r.random() < 0.5})
                    ops.append(q(g.query(find=0), nm, dir=d))
                    if r.random() < 0.25:
                        ops[-1]["faults"] = [crash(r) if r.random() < 0.7 else ioerr(r)]
        ss = [{"id": 0, "ops": ops}]
        if made and r.random() < 0.2:
            ss.append({"id": 1, "ops": [{"k": "list", "dir": d}]})
        ph = {"sessions": ss}
        if r.random() < 0.2:
            ph["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
        plan["phases"].append(ph)
    if made:
        ops = [{"k": "list", "dir": d}]
        for nm in r.sample(made, min(len(made), 3)):
            ops.append({"k": "open", "db": nm, "dir": d})
            if halves and r.random() < 0.5:
                ops[-1]["before"] = [{"pick": r.choice(halves), "half": True}]
        plan["phases"].append(phase(ops))
    return plan


def p18(r):
    g = small(r)
    dbs = ["a", "b"] if r.random() < 0.4 else ["a"]
    plan = base(r, dbs)
    plan["phases"].append(phase([q(g.query(find=0), r.choice(dbs)) for _ in range(r.choice([1, 2, 4]))]))
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < 0.12:
            plan["phases"].append(unsynced(r, {"k": "wipe", "db": r.choice(dbs), "sure": True, "store": r.choice(
                ["database", "database", "labels", "rels", "names"])}))
            continue
        ops = []
        for _ in range(r.choice([1, 2])):
            o = {"k": "wipe", "db": r.choice(dbs), "store": r.choice(["database", "database", "labels", "rels", "names"]),
                 "sure": r.random() < 0.75}
            if not o["sure"] and r.random() < 0.5:
                o["explicit"] = True
            x = r.random()
            fl = None
            if x < 0.3:
                fl = crash(r)
            elif x < 0.6:
                fl = ioerr(r)
            elif x < 0.7:
                fl = soft(r)
            if fl:
                if fl["c"] == "any":
                    fl["n"] = r.randint(1, 16)
                elif r.random() < 0.5:
                    fl["n"] = r.choice([1, 1, 2, 3])
                o["faults"] = [fl]
            ops.append(o)
            if r.random() < 0.6:
                ops.append(q(g.query(find=0), r.choice(dbs)))
        ss = [ops]
        while len(ss) < 4 and r.random() < 0.45:        # others work on the DBMS meanwhile
            more = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if x < 0.2:
                    more.append({"k": "wipe", "db": r.choice(dbs), "store": r.choice(["database", "labels", "rels", "names"]),
                                 "sure": r.random() < 0.8})
                elif x < 0.3:
                    more.append(load(r, r.choice(dbs), 0.1))
                else:
                    more.append(q(g.query(find=0), r.choice(dbs)))
                    if r.random() < 0.1:
                        more[-1]["faults"] = [crash(r) if r.random() < 0.5 else ioerr(r)]
            ss.append(more)
        ph = phase(*ss)
        if r.random() < 0.3:
            ph["host"] = [{"k": "power", "seed": r.randint(0, 1 << 30)}]
        plan["phases"].append(ph)
    if r.random() < 0.12:                           # nor does it change what is damaged, unless confirmed
        plan["phases"][-1].setdefault("host", []).append(damage(r))
        plan["knobs"].pop("locales", None)
        ops = [{"k": "wipe", "db": "a", "store": s, "sure": False, "explicit": r.random() < 0.5}
               for s in r.sample(["database", "labels", "rels", "names"], r.choice([1, 2, 4]))]
        if r.random() < 0.5:
            ops.append({"k": "wipe", "db": "a", "store": "database", "sure": True})
        plan["phases"].append(phase(ops, host=[{"k": "restore", "db": "a"}]))
    plan["phases"].append(phase([q(g.query(find=0), d) for d in dbs]))
    return plan


def p19(r):
    g = small(r, find=0.3)
    plan = base(r)
    pats = []
    for _ in range(r.choice([1, 2, 3])):
        ss = []
        for i in range(r.choice([1, 1, 2])):
            ops = []
            if r.random() < 0.8:
                ops.append({"k": "loglevel", "level": r.choice([10, 10, 20])})
            for _ in range(r.randint(1, 4)):
                x = r.random()
                if x < 0.2:
                    o = q(refused(g))
                elif x < 0.35 and pats:
                    o = q(find_for(g, pats))
                else:
                    o = q(g.query())
                    pats += lang.makes(o["q"])
                    if r.random() < 0.1:
                        o["faults"] = [ioerr(r)]
                ops.append(o)
            ss.append({"id": i, "ops": ops})
        plan["phases"].append({"sessions": ss})
        if r.random() < 0.2:
            plan["phases"][-1]["host"] = [{"k": "damage", "db": "a", "store": "indexes", "how": "empty"}]
            plan["phases"].append(phase([q(g.query()), q(find_for(g, pats))] if pats else [q(g.query())],
                                        host=[{"k": "restore", "db": "a"}]))
    plan["log_faults"] = {"k": r.choice(["enospc", "eio", "short", "flaky"]), "after": r.choice([0, 0, 3, 10])}
    return plan


def cheap_fault(r):
    """An error that does not strike what tidies up after it."""
    k = r.choice(["eio", "enospc", "enospc", "enomem"])
    cls = r.choice(["write", "sync", "rename"] if k != "enospc" else ["write", "write", "sync", "creat"])
    f = {"k": k, "c": cls, "n": r.choice([1, 1, 2, 3, 4])}
    if k == "enospc" and cls == "write" and r.random() < 0.5:
        f["sticky"] = True
    return f


def p22(r):
    """Many failures of few kinds in one session after the other; nothing may pile up."""
    g = small(r, max_pats=1, max_stmts=1)
    plan = base(r, ("a",))
    plan["pile"] = True
    plan["knobs"].pop("locales", None)
    strays(r, plan)
    refusals = [refused(g) for _ in range(2)]
    pats = []
    for _ in range(r.choice([1, 1, 2])):
        menu = r.choice([["q"], ["q"], ["create"], ["create", "q"], ["taken"], ["refused", "q"], ["wipe", "q"],
                         ["fine"], ["load", "load", "load", "fine"], ["q", "create", "taken", "refused", "wipe", "fine"], ["open"]])
        same = cheap_fault(r) if r.random() < 0.6 else None
        ss = []
        for i in range(r.choice([1, 1, 1, 2])):
            ops = []
            for _ in range(r.choice([16, 24, 36])):
                k = r.choice(menu)
                fl = [dict(same or cheap_fault(r))]
                if k == "q":
                    ops.append(q(g.query(find=0), "a", fl))
                elif k == "create":
                    ops.append(create(r.choice(["b", "c"]), "", fl, via=r.choice(["api", "input"])))
                elif k == "taken":
                    ops.append(create("a"))
                elif k == "refused":
                    ops.append(q(r.choice(refusals)))
                elif k == "wipe":
                    ops.append({"k": "wipe", "db": "a", "sure": True, "store": r.choice(["labels", "rels", "names"]),
                                "faults": fl})
                elif k == "load":
                    ops.append(load(r, fault_p=0, main=r.choice([0, 12])))
                elif k == "open":
                    ops.append({"k": "open", "db": "a", "dir": ""})
                elif pats and r.random() < 0.5:
                    ops.append(q(find_for(g, pats)))
                else:
                    ops.append(q(g.query(find=0)))
                    pats += lang.makes(ops[-1]["q"])
            ss.append({"id": i, "ops": ops})
        plan["phases"].append({"sessions": ss})
    if pats and r.random() < 0.5:                   # queries on a damaged DBMS
        plan["phases"][-1].setdefault("host", []).append(damage(r))
        ops = []
        kinds = r.choice([["find"], ["make"], ["load"], ["find", "make", "load"]])
        for _ in range(r.choice([16, 24, 36])):
            k = r.choice(kinds)
            ops.append(q(find_for(g, pats)) if k == "find" else q(g.query(find=0)) if k == "make"
                       else load(r, fault_p=0, main=9))
        plan["phases"].append(phase(ops, host=[{"k": "restore", "db": "a"}]))
    clean_tail(r, g, plan)
    return plan


def sometimes_wide(f):
    def gen(r):
        return wide(r) if r.random() < 0.03 else f(r)
    return gen


p01, p02, p04, p05, p09, p13 = map(sometimes_wide, (p01, p02, p04, p05, p09, p13))

GEN = {"C%02d" % i: f for i, f in enumerate(
    [p01, p02, p03, p04, p05, p06, p07, p08, p09, p10, p11, p12, p13, p14, p15, p16, p17, p18, p19], 1)}
GEN["C22"] = p22

# which observations count against which property
COMMON = {"deadlock", "stuck"}
CLASSES = {
    "C01": {"lost", "extra", "healthy-failed", "unreadable", "inconsistent", "missing-file", "wn-key"},
    "C02": {"lost", "extra", "unreadable", "inconsistent", "missing-file"},
    "C03": {"healthy-failed", "find-failed", "unreadable", "missing-file", "lost", "inconsistent",
            "stuck", "deadlock", "spin"},
    "C04": {"wn-dup", "wn-reuse", "wn-key", "wn-counter"},
    "C05": {"idx-label", "idx-name", "idx-noderel", "idx-extra"},
    "C06": {"idx-label", "idx-name", "idx-noderel", "lost", "extra", "healthy-failed", "unreadable", "inconsistent", "missing-file"},
    "C07": {"refused-changed", "accepted-bad", "lost", "extra"},
    "C08": {"lost", "extra", "healthy-failed", "find-missed", "find-failed", "reader-view",
            "reader-index", "wn-dup", "unreadable", "inconsistent", "missing-file", "wn-key"},
    "C09": {"find-missed", "find-ghost", "find-failed", "find-wrote"},
    "C10": {"created-window", "created-changed", "updated-set"},
    "C11": {"create-dup", "create-incomplete", "create-clobber", "create-refused", "create-stuck",
            "create-none", "create-paths", "missing-file", "unreadable", "healthy-failed"},
    "C12": {"foreign-write", "escape", "delete-left", "delete-failed", "delete-undone", "create-refused", "lost",
            "missing-file"},
    "C13": {"inst-lost", "inst-extra", "inst-unreadable", "inst-inconsistent", "reader-view",
            "reader-index", "unreadable", "inconsistent", "missing-file"},
    "C14": {"shell-died", "shell-twice", "shell-help", "lost", "extra", "healthy-failed",
            "accepted-bad"},
    "C15": {"damage-acked", "damage-overwritten", "damage-applied", "lost", "extra", "unreadable",
            "healthy-failed", "stuck", "deadlock"},
    "C16": {"deadlock", "stuck", "spin", "healthy-failed", "find-failed"},
    "C17": {"list-missing", "list-order", "list-ghost", "list-failed", "open-missing", "open-ghost", "open-keys", "open-failed",
            "open-wrong", "create-clobber", "create-refused", "foreign-write", "shell-select", "lost",
            "stuck", "deadlock"},
    "C18": {"wipe-scope", "wipe-unasked", "wipe-failed", "wipe-left", "wipe-torn", "wipe-undone",
            "idx-label", "idx-name", "idx-noderel", "inst-unreadable", "inst-extra", "healthy-failed",
            "unreadable", "missing-file", "lost", "extra"},
    "C19": {"log-outcome", "log-graph"},
    "C22": {"pile-files", "pile-open", "healthy-failed", "find-failed", "lost", "extra", "unreadable", "missing-file"},
}
