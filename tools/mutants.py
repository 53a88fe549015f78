"""Mechanical breakages: small source mutations that pass the tests, put to every check.

    mutants.py list  [FILE...]              what would be mutated
    mutants.py run OUT.jsonl [--jobs N] [--runs N] [--only SUBSTR]

Works on copies of /repo under /tmp; each surviving mutant (all stable tests pass) is run
through the checks, in turn, until one reports a violation.  Nothing here is a check.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VP_REPO", "/repo")
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = ["01", "07", "14", "05", "09", "03", "17", "12", "06", "11", "18", "04", "10", "13", "15",
         "16", "19", "02", "08", "22"]


def order(path):
    """The checks most likely to notice, by part of the system."""
    for part, o in (("select_gdbms", "17 12 11 18 03 15 22"), ("wiggleshell", "14 17 19 09"), ("core/query", "01 07 14 09 06 02"),
                    ("clauses/find", "09 01 07 05"), ("report", "09 07 01"), ("logger", "19 01"),
                    ("clauses/make/make.py", " ".join(ORDER)), ("make_pre", "04 01 09 10 13"), ("graph/", " ".join(ORDER)),
                    ("", "01 07 14 09 05 10")):
        if part in path:
            return o.split()


def files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "*.py"], capture_output=True, text=True).stdout.split()
    return [f for f in out if "test" not in f and not f.startswith("exceptions/")]


SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is",
        ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}
REGEX = [("*", "+"), ("+", "*"), ("?", ""), ("\\w", "[a-z]"), ("\\d", "[1-9]"), ("\\s", " "), ("$", ""), ("^", ""),
         ("_", ""), ("A-Z", "A-Y"), ("a-z", "a-y"), ("0-9", "0-8")]


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = [0]
        for ln in src.splitlines(True):
            self.lines.append(self.lines[-1] + len(ln.encode()))
        self.b = src.encode()
        self.out = []
        self.quiet = 0

    def pos(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, what, span=None):
        a, b = span or self.pos(n)
        new = new.encode()
        if self.b[a:b] != new:
            self.out.append((n.lineno, what, a, b, new))

    # -- statements --
    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and self.is_log(s.value):
                continue
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
                self.add(s, "pass", "drop " + self.text(s)[:60])
            if isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                self.add(s, "pass", "drop " + self.text(s)[:60])
            if isinstance(s, ast.Return) and s.value is not None:
                self.add(s, "return None", "return nothing")
            if isinstance(s, ast.Continue):
                self.add(s, "break", "continue->break")
            if isinstance(s, ast.Break):
                self.add(s, "continue", "break->continue")

    @staticmethod
    def is_log(n):
        return isinstance(n, ast.Call) and "graph_logger" in ast.dump(n.func) or \
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "info", "debug", "warning", "exception", "error")

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list):
                self.body(v)
        super().generic_visit(n)

    def visit_Expr(self, n):
        if self.is_log(n.value) or isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_Raise(self, n):
        return

    def visit_Import(self, n):
        return

    visit_ImportFrom = visit_Import

    def visit_If(self, n):
        if "__main__" in self.text(n.test):
            return
        self.cond(n.test)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_While(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def cond(self, t):
        x = self.text(t)
        self.add(t, "(not (%s))" % x, "negate " + x[:50])
        self.add(t, "True", "true: " + x[:50])
        self.add(t, "False", "false: " + x[:50])

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            a = self.pos(n.left)[1]
            b = self.pos(n.comparators[0])[0]
            new = SWAP.get(type(n.ops[0]))
            if new:
                self.add(n, " %s " % new, "compare %s -> %s" % (self.text(n)[:50], new), (a, b))
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        word = "or" if isinstance(n.op, ast.And) else "and"
        self.add(n, "(" + (" %s " % word).join("(%s)" % self.text(v) for v in n.values) + ")", "bool -> " + word)
        for i in range(len(n.values)):
            rest = [self.text(v) for j, v in enumerate(n.values) if j != i]
            self.add(n, "(" + (" %s " % ("and" if word == "or" else "or")).join("(%s)" % v for v in rest) + ")",
                     "operand dropped: " + self.text(n.values[i])[:40])
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = self.pos(n.left)[1], self.pos(n.right)[0]
            self.add(n, " - " if isinstance(n.op, ast.Add) else " + ", "arith " + self.text(n)[:40], (a, b))
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, self.text(n.operand), "not dropped")
        self.generic_visit(n)

    def loop(self, it):
        x = self.text(it)
        for t in ("list(%s)[:1]", "list(%s)[1:]", "list(%s)[:-1]", "list(%s)[::-1]", "list(%s)[:3]"):
            self.add(it, t % x, "loop over " + t % x[:40])

    def visit_For(self, n):
        self.loop(n.iter)
        self.generic_visit(n)

    def visit_comprehension(self, n):
        self.out.append(None)
        self.out.pop()
        n.iter.lineno and self.loop(n.iter)
        for c in n.ifs:
            self.cond(c)
        self.generic_visit(n)

    def visit_Call(self, n):
        if self.is_log(n):
            return
        x = self.text(n)
        for k in n.keywords:
            if k.arg:
                a, b = self.pos(k)
                while self.b[b:b + 1] in (b",", b" ", b"\n"):
                    b += 1
                self.add(k, "", "argument dropped: " + self.text(k)[:40] + " in " + x[:30], (a, b))
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in (
                "strip", "lower", "upper", "lstrip", "rstrip", "copy", "dict", "items", "split"):
            self.add(n, self.text(n.func.value), "call dropped ." + n.func.attr)
        if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "set", "list", "deepcopy", "str", "int", "bool",
                                                          "min", "max", "len") and n.args:
            if n.func.id == "min":
                self.add(n.func, "max", "min->max")
            elif n.func.id == "max":
                self.add(n.func, "min", "max->min")
            elif len(n.args) == 1 and n.func.id != "len":
                self.add(n, "(%s)" % self.text(n.args[0]), "call dropped " + n.func.id)
        swaps = {"append": "extend", "search": "match", "match": "search", "fullmatch": "match", "findall": None,
                 "startswith": "endswith", "endswith": "startswith", "lstrip": "strip", "upper": "lower",
                 "lower": "upper", "add": "discard"}
        if isinstance(n.func, ast.Attribute) and swaps.get(n.func.attr):
            a, b = self.pos(n.func)
            self.add(n, swaps[n.func.attr], "%s->%s" % (n.func.attr, swaps[n.func.attr]), (b - len(n.func.attr), b))
        self.generic_visit(n)

    def visit_With(self, n):
        a = self.pos(n.items[0])[0] if hasattr(n.items[0], "lineno") else None
        if n.items[0].optional_vars is None:
            s = self.pos(n.items[0].context_expr)
            self.add(n, "__import__('contextlib').nullcontext()", "context dropped " +
                     self.text(n.items[0].context_expr)[:40], s)
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if n.type is not None:
            self.add(n, "()", "handler dropped " + self.text(n.type)[:40], self.pos(n.type))
            self.add(n, "Exception", "handler widened " + self.text(n.type)[:40], self.pos(n.type))
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            self.add(n.slice, str(-1 if n.slice.value == 0 else n.slice.value - 1), "index " + self.text(n)[:40])
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "constant %r" % v)
        elif isinstance(v, int):
            self.add(n, str(v + 1), "constant %r+1" % v)
            self.add(n, str(v - 1), "constant %r-1" % v)
        elif isinstance(v, str) and self.text(n)[:1] in "rf\"'":
            x = self.text(n)
            if n.lineno == n.end_lineno and 0 < len(v) < 200:
                if len(v) < 25 and "\n" not in v:
                    q = x[-1]
                    i = x.index(q)
                    self.add(n, x[:i + 1] + x[i + 2:] if len(v) > 1 and x[i + 1] != "\\" else x[:i] + q + "zz" + q,
                             "string " + x[:40])
                if x.startswith("r") or "[" in x or "\\" in x:
                    for a, b in REGEX:
                        at = x.find(a, 1)
                        while at > 0:
                            self.out.append((n.lineno, "regex %s: %s->%s at %d" % (x[:30], a, b, at),
                                             self.pos(n)[0] + len(x[:at].encode()),
                                             self.pos(n)[0] + len(x[:at + len(a)].encode()), b.encode()))
                            at = x.find(a, at + 1)
    visit_JoinedStr = lambda self, n: None      # noqa: E731

    def visit_FunctionDef(self, n):
        for d in n.args.defaults:
            self.visit(d)
        self.body(n.body)
        for s in n.body:
            self.visit(s)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Name) and n.targets[0].id == "__all__":
            return
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)


def mutants():
    out = []
    for f in files():
        src = open(os.path.join(REPO, f), encoding="utf-8").read()
        fd = Finder(src)
        fd.visit(ast.parse(src))
        seen = set()
        for m in fd.out:
            line, what, a, b, new = m
            t = fd.b[:a] + new + fd.b[b:]
            if t in seen or t == fd.b:
                continue
            seen.add(t)
            try:
                ast.parse(t.decode())
            except (SyntaxError, ValueError):
                continue
            out.append({"file": f, "line": line, "what": what, "a": a, "b": b, "new": new.decode()})
    for i, m in enumerate(out):
        m["id"] = i
    return out


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d


def one(m, args):
    w = "%s/%d" % (args.work, m["id"])
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(REPO, w, ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
    try:
        p = os.path.join(w, m["file"])
        b = open(p, "rb").read()
        open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
        try:
            t = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=w, timeout=60,
                               env=dict(os.environ, PYTHONPATH=w), capture_output=True, text=True)
        except subprocess.TimeoutExpired:
            return dict(m, result="tests")
        if t.returncode != 0 or "181 passed" not in t.stdout:
            return dict(m, result="tests")
        worker = subprocess.Popen([PY, "-B", "-m", "sim.explore"], cwd=args.home, text=True, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, VP_REPO=w, PYTHONHASHSEED="0"))
        try:
            if "ready" not in worker.stdout.readline():
                return dict(m, result="caught", by="boot", how="the modules do not load")
            for p in order(m["file"]):
                req = {"do": "explore", "prop": "C" + p, "seed": 1, "from": 0, "n": args.runs, "step": 1,
                       "deadline": time.time() + args.secs}
                worker.stdin.write(json.dumps(req) + "\n")
                worker.stdin.flush()
                for ln in worker.stdout:
                    o = json.loads(ln)
                    if "found" in o:
                        return dict(m, result="caught", by="C" + p, run=o["i"], how=o["found"][0]["class"])
                    if "harness" in o:
                        return dict(m, result="harness", by="C" + p, how=o["harness"][-300:])
                    if "done" in o:
                        break
        finally:
            worker.kill()
            worker.wait()
        return dict(m, result="missed")
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--runs", type=int, default=60)
    ap.add_argument("--secs", type=float, default=60, help="per property")
    ap.add_argument("--only", default="")
    ap.add_argument("--ids", default="", help="1,2,3 or @file with one result per line: those missed there")
    ap.add_argument("--lines")
    ap.add_argument("--work", default="/tmp/mutants")
    ap.add_argument("--home", default=HOME)
    args = ap.parse_args()
    ms = [m for m in mutants() if args.only in m["file"]]
    if args.cmd == "list":
        for m in ms:
            print(m["id"], "%s:%d" % (m["file"], m["line"]), m["what"])
        return
    if args.ids:
        ids = {int(x) for x in args.ids.split(",")} if args.ids[0] != "@" else {
            x["id"] for x in map(json.loads, open(args.ids[1:])) if x["result"] == "missed"}
        ms = [m for m in ms if m["id"] in ids]
    if args.lines:                               # {file: {line: ...}} that simulations execute
        cov = json.load(open(args.lines))
        ms = [m for m in ms if str(m["line"]) in cov.get(m["file"], {})]
    done = set()
    if os.path.exists(args.out):
        done = {json.loads(ln)["id"] for ln in open(args.out)}
    os.makedirs(args.work, exist_ok=True)
    with open(args.out, "a") as out, concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
        for r in (
                f.result() for f in concurrent.futures.as_completed(
                    [ex.submit(one, m, args) for m in ms if m["id"] not in done])):
            out.write(json.dumps(r) + "\n")
            out.flush()
            if r["result"] != "tests":
                print(r["id"], r["result"], "%s:%d" % (r["file"], r["line"]), r["what"], r.get("by", ""),
                      r.get("how", "")[:100], flush=True)


if __name__ == "__main__":
    sys.exit(main())
