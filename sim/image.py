"""Fresh copies of the repository's modules, one set per simulated process."""
import importlib
import importlib.abc
import importlib.machinery
import logging
import sys

from . import patch

CODE = {}



class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        c = CODE.get(path)
        if c is None:
            c = CODE[path] = compile(self.get_data(path), path, "exec", dont_inherit=True)
        return c

    def exec_module(self, module):
        if ACTIVE is not None:
            ACTIVE.names.append(module.__name__)
        super().exec_module(module)


def _hook(path):
    if path == patch.REPO or path.startswith(patch.REPO + "/"):
        return importlib.machinery.FileFinder(path, (Loader, [".py"]))
    raise ImportError


ACTIVE = None
_FINDERS = False


def install():
    global _FINDERS
    if _FINDERS:
        return
    _FINDERS = True
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    sys.path[:0] = [patch.REPO, patch.REPO + "/wiggle_shell"]


class Image:
    """One process's modules, logging configuration and observed shell queries."""

    def __init__(self):
        self.names = []
        self.mods = {}
        self.handlers = []
        self.level = logging.WARNING
        self.ready = False
        self.atexit = []
        self.on_query = None

    def activate(self):
        global ACTIVE
        prev = ACTIVE
        if prev is self:
            return
        if prev is not None:
            prev.park()
        ACTIVE = self
        sys.modules.update(self.mods)
        logging.root.handlers = self.handlers
        if logging.root.level != self.level:
            logging.root.setLevel(self.level)

    def park(self):
        global ACTIVE
        for n in self.names:
            m = sys.modules.pop(n, None)
            if m is not None:
                self.mods[n] = m
        self.handlers = logging.root.handlers
        self.level = logging.root.level
        ACTIVE = None

    def load(self):
        """Import what a session uses.  Runs the repository's import-time code."""
        if self.ready:
            return self
        self.activate()
        imp = importlib.import_module
        patch.BOOT_ATEXIT = self.atexit
        try:
            from pydantic import class_validators
            class_validators._FUNCS.clear()     # pydantic's own per-process registry
        except (ImportError, AttributeError):
            pass
        try:
            q = imp("wiggle_shell.core.query.query")
            self.query_mod = q
            self.models = imp("models.wigish")
            self.select = imp("wiggle_shell.core.select_gdbms.select_gdbms")
            self.database = imp("wiggle_query_language.graph.database.database")
            base = "wiggle_query_language.graph.database.indexes."
            self.labels = imp(base + "node_labels_index")
            self.rels = imp(base + "node_relationships_index")
            self.relnames = imp(base + "relationship_names_index")
            self.wn = imp("wiggle_query_language.graph.state.wiggle_number")
            sq = imp("core.query.query")
            real = sq.query

            def query(*a, **kw):
                if self.on_query is None:
                    return real(*a, **kw)
                return self.on_query(real, a, kw)
            query.__wrapped__ = real
            sq.query = query
            self.shell = imp("wiggleshell")
        finally:
            patch.BOOT_ATEXIT = None
        self.ready = True
        return self
