"""Faults between lines: what strikes where no system call is made.

A signal's KeyboardInterrupt and a failing allocation do not wait for a system call.
A fault of class "line" counts the lines the code under test is about to run in one
operation and raises before the n-th.  Left out are places where Python itself gives
the program no way to be safe, so that no code could pass: the line of a `with` or a
`try`, before which a resource is owned by nobody, and the bodies of `finally` and
`except` with whatever they call.  For the same reason the process ends after the
operation that was struck: what it may have failed to release goes with it.
"""
import ast
import sys

_SKIP = {}


def _blocked(path):
    """Lines of a source file at which nothing strikes."""
    got = _SKIP.get(path)
    if got is None:
        got = _SKIP[path] = set()
        try:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            return got

        def span(nodes):
            for n in nodes:
                got.update(range(n.lineno, n.end_lineno + 1))
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                got.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                got.add(n.lineno)
                span(n.finalbody)
                for h in n.handlers:
                    span([h])
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                body = n.body if isinstance(n.body, list) else [n.body]
                got.update(range(n.lineno, body[0].lineno))
    return got


class Lines:
    """Trace function of the main thread of one simulated process during one operation."""

    def __init__(self, kernel, proc, faults, root):
        self.k = kernel
        self.p = proc
        self.faults = faults
        self.root = root
        self.seen = 0

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event != "line" or self.p.host or self.p.dead:
            return self.line
        self.seen += 1
        for f in self.faults:
            if self.seen >= f["n"] and not f.get("fired") and self.open(frame):
                kind = f["k"]
                if all(g.get("fired") or g is f for g in self.faults):
                    sys.settrace(None)
                at = "%s:%d" % (frame.f_code.co_filename[len(self.root):], frame.f_lineno)
                self.k._fire(self.p, f, kind, "line", at)
                if kind != "sigint":
                    raise MemoryError()
                self.k.sigint(self.p)
        return self.line

    def open(self, frame):
        while frame is not None:
            path = frame.f_code.co_filename
            if path.startswith(self.root) and frame.f_lineno in _blocked(path):
                return False
            frame = frame.f_back
        return True
