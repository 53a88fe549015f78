"""In-memory file system with a page cache and a stable store behind it.

Live state is what processes see.  Stable state is what a power loss leaves:
file data only as of the last fsync of that file plus an arbitrary (seeded) part
of what was written since, and directory changes only as a prefix of the global
metadata journal that includes everything fsync'ed directories were part of.  With the
knob "dirs" every directory has a journal of its own instead: syncing one says nothing
about another, except that a synced directory can be reached from the root (which every
file system in use grants, and which POSIX does not even ask for).
"""
import errno
import io
import os as _os
import random
import stat as _stat
import zlib

FD_BASE = 1_000_000
NOFILE = 24                  # files a process may have open; a stand-in for long sessions


def err(code, path=""):
    return OSError(code, _os.strerror(code), path)


class Inode:
    __slots__ = ("ino", "kind", "data", "durable", "pending", "entries", "mtime",
                 "ctime", "mode", "flocks", "plocks", "nlink", "nopen", "dentries",
                 "lost")

    def __init__(self, ino, kind, clock):
        self.ino = ino
        self.kind = kind
        self.data = bytearray()
        self.durable = b""
        self.pending = []
        self.entries = {}
        self.dentries = {}
        self.mtime = self.ctime = clock
        self.mode = (_stat.S_IFDIR | 0o755) if kind == "d" else (_stat.S_IFREG | 0o644)
        self.flocks = {}            # open file -> "ex" | "sh"
        self.plocks = {}            # process -> "ex" | "sh"
        self.nlink = 1
        self.nopen = 0
        self.lost = False           # a failed fsync gave up on some of the data


class OpenFile:
    __slots__ = ("inode", "flags", "pos", "proc", "path", "fd", "dups")

    def __init__(self, inode, flags, proc, path, fd):
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.proc = proc
        self.path = path
        self.fd = fd
        self.dups = 0


class SimFS:
    def __init__(self, kernel, knobs):
        self.k = kernel
        self.next_ino = 10
        self.root = Inode(1, "d", 0.0)
        self.fds = {}
        self.next_fd = FD_BASE
        self.most_open = 0
        self.journal = []
        self.per_dir = bool(knobs.get("dirs"))
        self.order_seed = knobs.get("dir_order", 0)
        self.sector = knobs.get("sector", 64)
        self.bufsize = knobs.get("bufsize", 4096)
        self.chunk = knobs.get("chunk", 8192)
        self.short_io = knobs.get("short_io", 0)
        self.short_rng = random.Random(knobs.get("short_seed", 0))
        self.partial_hint = None
        self.mutations = 0
        self.torn = 0
        self.lost_meta = 0
        self.lost_data = 0
        self.syncs = 0
        self.gave_up = 0

    # ---- path handling (all paths absolute and normalised) ---------------
    @staticmethod
    def split(path):
        return [c for c in path.split("/") if c]

    def lookup(self, path):
        node = self.root
        for c in self.split(path):
            if node.kind != "d":
                raise err(errno.ENOTDIR, path)
            if len(c.encode("utf-8", "surrogateescape")) > 255:
                raise err(errno.ENAMETOOLONG, path)
            nxt = node.entries.get(c)
            if nxt is None:
                raise err(errno.ENOENT, path)
            node = nxt
        return node

    def find(self, path):
        try:
            return self.lookup(path)
        except OSError:
            return None

    def parent(self, path):
        parts = self.split(path)
        if not parts:
            raise err(errno.EBUSY, path)
        d = self.lookup("/" + "/".join(parts[:-1]))
        if d.kind != "d":
            raise err(errno.ENOTDIR, path)
        if len(parts[-1].encode("utf-8", "surrogateescape")) > 255:
            raise err(errno.ENAMETOOLONG, path)
        return d, parts[-1]

    def _new(self, kind):
        self.next_ino += 1
        return Inode(self.next_ino, kind, self.k.wall)

    # ---- metadata journal -------------------------------------------------
    def _meta(self, *op):
        if self.per_dir and op[0] == "rename" and op[1] is not op[3]:
            _, d1, n1, d2, n2, node = op
            self.journal.append(("link", d2, n2, node))
            self.journal.append(("unlink", d1, n1))
            return
        self.journal.append(op)

    def _apply(self, op):
        kind = op[0]
        if kind == "link":
            _, d, name, node = op
            d.dentries[name] = node
        elif kind == "unlink":
            _, d, name = op
            d.dentries.pop(name, None)
        elif kind == "rename":
            _, d1, n1, d2, n2, node = op
            if d1.dentries.get(n1) is node:
                d1.dentries.pop(n1)
            d2.dentries[n2] = node

    def _touches(self, op, d):
        return any(x is d for x in op[1:])

    def sync_dir(self, d):
        if self.per_dir:
            for op in self.journal:
                if op[1] is d:
                    self._apply(op)
            self.journal = [op for op in self.journal if op[1] is not d]
            while d is not self.root:                # the names that lead here
                last = [i for i, op in enumerate(self.journal)
                        if op[0] != "unlink" and op[-1] is d]
                if not last:
                    break
                up = self.journal[last[-1]][1]
                for i, op in enumerate(self.journal[:last[-1] + 1]):
                    if op[1] is up:
                        self._apply(op)
                self.journal = [op for i, op in enumerate(self.journal)
                                if op[1] is not up or i > last[-1]]
                d = up
            return
        last = -1
        for i, op in enumerate(self.journal):
            if self._touches(op, d):
                last = i
        for op in self.journal[:last + 1]:
            self._apply(op)
        del self.journal[:last + 1]

    def sync_all(self):
        for op in self.journal:
            self._apply(op)
        self.journal = []
        for n in self._walk(self.root):
            if n.kind == "f":
                self._flush(n)

    def _walk(self, node):
        yield node
        if node.kind == "d":
            for c in list(node.entries.values()):
                yield from self._walk(c)

    # ---- host-mode helpers (no system call, no fault) -----------------------
    def host_mkdirs(self, path):
        node = self.root
        for c in self.split(path):
            nxt = node.entries.get(c)
            if nxt is None:
                nxt = self._new("d")
                node.entries[c] = nxt
                node.dentries[c] = nxt
            node = nxt
        return node

    def host_write(self, path, data, durable=True):
        d, name = self.parent(path)
        node = d.entries.get(name)
        if node is None:
            node = self._new("f")
            d.entries[name] = node
            self._meta("link", d, name, node)
        node.data = bytearray(data)
        if durable:
            node.durable = bytes(data)
            node.pending = []
            node.lost = False
            self.sync_dir(d)
        else:
            node.pending.append(("t", 0))
            node.pending.append(("w", 0, bytes(data)))

    def host_remove(self, path):
        d, name = self.parent(path)
        d.entries.pop(name, None)
        d.dentries.pop(name, None)

    def host_read(self, path):
        node = self.find(path)
        if node is None or node.kind != "f":
            return None
        return bytes(node.data)

    def tree(self, path="/"):
        out = {}
        node = self.find(path)
        if node is None:
            return out
        base = "" if path == "/" else path

        def rec(p, n):
            if n.kind == "d":
                out[p + "/"] = None
                for c in sorted(n.entries):
                    rec(p + "/" + c, n.entries[c])
            else:
                out[p] = bytes(n.data)
        rec(base, node)
        return out

    def state_hash(self):
        h = 0
        for p, v in self.tree("/").items():
            h = zlib.crc32(repr((p, v)).encode(), h)
        return h

    # ---- power loss ----------------------------------------------------------
    def power_loss(self, rng):
        logs = [self.journal]
        if self.per_dir:
            logs = []
            for op in self.journal:
                for log in logs:
                    if log[0][1] is op[1]:
                        log.append(op)
                        break
                else:
                    logs.append([op])
        for log in logs:
            cut = rng.choice([0, len(log), rng.randint(0, len(log))])
            if cut < len(log):
                self.lost_meta += 1
            for op in log[:cut]:
                self._apply(op)
        self.journal = []
        seen = set()

        def settle(node):
            if node.ino in seen:
                return
            seen.add(node.ino)
            node.flocks = {}
            node.plocks = {}
            if node.kind == "d":
                node.entries = dict(node.dentries)
                for name in sorted(node.entries):
                    settle(node.entries[name])
            else:
                node.data = bytearray(self._survivor(node, rng))
                node.durable = bytes(node.data)
                node.pending = []
                node.lost = False
        settle(self.root)
        self.fds = {}

    def _survivor(self, node, rng):
        if not node.pending:
            return node.durable
        mode = rng.choice(["none", "all", "prefix", "subset", "subset"])
        if mode == "all" and not node.lost:
            return bytes(node.data)
        self.lost_data += 1
        buf = bytearray(node.durable)
        if mode == "none":
            return bytes(buf)
        ops = node.pending
        if mode == "all":
            tail = []
        elif mode == "prefix":
            n = rng.randint(0, len(ops))
            ops, tail = ops[:n], ops[n:n + 1]
        else:
            ops, tail = [o for o in ops if rng.random() < 0.6], []
        for o in ops:
            self._replay(buf, o)
        for o in tail:
            if o[0] == "w":
                self.torn += 1
                self._replay(buf, ("w", o[1], o[2][:self._tear(rng, len(o[2]))]))
        return bytes(buf)

    def _tear(self, rng, n):
        if n == 0:
            return 0
        k = rng.randint(0, n)
        return k - (k % self.sector) if rng.random() < 0.7 else k

    @staticmethod
    def _replay(buf, o):
        if o[0] == "t":
            if o[1] <= len(buf):
                del buf[o[1]:]
            else:
                buf.extend(b"\0" * (o[1] - len(buf)))
        else:
            off, data = o[1], o[2]
            if off > len(buf):
                buf.extend(b"\0" * (off - len(buf)))
            buf[off:off + len(data)] = data

    # ---- process death ---------------------------------------------------------
    def process_gone(self, p):
        for fd in [fd for fd, of in self.fds.items() if of.proc is p]:
            of = self.fds.pop(fd)
            of.inode.flocks.pop(of, None)
        for node in self._walk(self.root):
            node.plocks.pop(p, None)

    def _mut(self, path):
        self.mutations += 1
        if self.k.on_mut is not None:
            self.k.on_mut(path)

    def flush_action(self, act, of_or_none=None):
        if act and act[0] == "killpartial":
            p = self.k.proc()
            self.k.kill(p, "kill")
            from .kernel import SimKilled
            raise SimKilled()

    def held(self, p):
        """How many descriptors process p has open."""
        return sum(of.proc is p for of in self.fds.values())

    # ---- system calls ------------------------------------------------------------
    def sys_open(self, path, flags, mode=0o666):
        acc = flags & _os.O_ACCMODE
        wr = acc in (_os.O_WRONLY, _os.O_RDWR)
        node = self.find(path)
        cls = []
        if node is None and flags & _os.O_CREAT:
            cls.append("open_creat")
        if node is not None and wr and flags & _os.O_TRUNC:
            cls.append("open_trunc")
        self.k.enter("open", path, flags, classes=cls)
        p = self.k.proc()
        if p is not None:
            held = self.held(p)
            self.most_open = max(self.most_open, held)
            if held >= NOFILE:
                raise err(errno.EMFILE, path)
        node = self.find(path)
        if node is None:
            if not flags & _os.O_CREAT:
                self.lookup(path)               # raises the right error
            if path.endswith("/"):
                raise err(errno.EISDIR, path)
            d, name = self.parent(path)
            node = self._new("f")
            d.entries[name] = node
            self._meta("link", d, name, node)
            created = True
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise err(errno.EEXIST, path)
            if node.kind == "d":
                if wr or flags & _os.O_CREAT:
                    raise err(errno.EISDIR, path)
            elif flags & getattr(_os, "O_DIRECTORY", 0):
                raise err(errno.ENOTDIR, path)
            created = False
            if wr and flags & _os.O_TRUNC and node.kind == "f":
                if len(node.data):
                    node.data = bytearray()
                node.pending.append(("t", 0))
        self.next_fd += 1
        of = OpenFile(node, flags, self.k.proc(), path, self.next_fd)
        node.nopen += 1
        self.fds[of.fd] = of
        if created or (wr and flags & _os.O_TRUNC):
            self._mut(path)
        return of.fd

    def of(self, fd):
        of = self.fds.get(fd)
        if of is None:
            p = self.k.proc()
            if p is not None and p.dead:
                from .kernel import SimKilled
                raise SimKilled()
            raise err(errno.EBADF)
        return of

    def sys_close(self, fd, owner=None):
        of = self.fds.get(fd)
        if of is None:
            if owner is not None and owner.dead:
                return
            return self.of(fd)
        act = self.k.enter("close", of.path, owner=of.proc)
        self.fds.pop(fd, None)
        of.inode.nopen -= 1
        if of.dups:
            of.dups -= 1
        else:
            of.inode.flocks.pop(of, None)
        if of.proc is not None:
            of.inode.plocks.pop(of.proc, None)
        if act and act[0] == "closeerr":
            raise act[1]

    def sys_dup(self, fd):
        of = self.of(fd)
        self.k.enter("open", of.path, owner=of.proc)
        self.next_fd += 1
        new = self.next_fd
        self.fds[new] = of
        of.dups += 1
        of.inode.nopen += 1
        return new

    def sys_fallocate(self, fd, off, n):
        of = self.of(fd)
        act = self.k.enter("write", of.path, n, owner=of.proc)
        if off + n > len(of.inode.data):
            self._truncate(of.inode, off + n)
            self._mut(of.path)
        self.flush_action(act)

    def sys_read(self, fd, n, off=None):
        of = self.of(fd)
        if of.inode.kind == "d":
            raise err(errno.EISDIR, of.path)
        if of.flags & _os.O_ACCMODE == _os.O_WRONLY:
            raise err(errno.EBADF, of.path)
        act = self.k.enter("read", of.path, n, owner=of.proc)
        pos = of.pos if off is None else off
        avail = max(0, len(of.inode.data) - pos)
        n = min(n, avail)
        if n > 1:
            if act and act[0] == "short":
                n = max(1, int(n * act[1]))
            elif self.short_io and self.short_rng.random() < self.short_io:
                self.k.fired["short@read"] = self.k.fired.get("short@read", 0) + 1
                n = self.short_rng.randint(1, n)
        out = bytes(of.inode.data[pos:pos + n])
        if off is None:
            of.pos += len(out)
        return out

    def sys_write(self, fd, data, off=None):
        of = self.of(fd)
        if of.flags & _os.O_ACCMODE == _os.O_RDONLY:
            raise err(errno.EBADF, of.path)
        data = bytes(data)
        act = self.k.enter("write", of.path, len(data), owner=of.proc)
        n = len(data)
        if act and act[0] in ("short", "killpartial") and n:
            n = int(n * act[1])
            if act[0] == "short":
                n = max(1, n)
        elif self.short_io and n > 1 and self.short_rng.random() < self.short_io:
            self.k.fired["short@write"] = self.k.fired.get("short@write", 0) + 1
            n = self.short_rng.randint(1, n)
        node = of.inode
        pos = of.pos if off is None else off
        if of.flags & _os.O_APPEND:
            pos = len(node.data)
        part = data[:n]
        self._replay(node.data, ("w", pos, part))
        node.pending.append(("w", pos, part))
        node.mtime = self.k.wall
        if off is None:
            of.pos = pos + n
        self._mut(of.path)
        self.flush_action(act)
        return n

    def sys_lseek(self, fd, off, whence):
        of = self.of(fd)
        if whence == 0:
            pos = off
        elif whence == 1:
            pos = of.pos + off
        else:
            pos = len(of.inode.data) + off
        if pos < 0:
            raise err(errno.EINVAL, of.path)
        of.pos = pos
        return pos

    def _truncate(self, node, size):
        self._replay(node.data, ("t", size))
        node.pending.append(("t", size))
        node.mtime = self.k.wall

    def sys_ftruncate(self, fd, size):
        of = self.of(fd)
        self.k.enter("truncate", of.path, size, owner=of.proc)
        self._truncate(of.inode, size)
        self._mut(of.path)

    def sys_truncate(self, path, size):
        self.k.enter("truncate", path, size)
        node = self.lookup(path)
        if node.kind == "d":
            raise err(errno.EISDIR, path)
        self._truncate(node, size)
        self._mut(path)

    def _flush(self, node):
        if node.lost:
            buf = bytearray(node.durable)
            for o in node.pending:
                self._replay(buf, o)
            node.durable = bytes(buf)
        else:
            node.durable = bytes(node.data)
        node.pending = []

    def sys_fsync(self, fd):
        of = self.of(fd)
        node = of.inode
        try:
            self.k.enter("fsync", of.path, owner=of.proc)
        except OSError:
            # What a failed fsync leaves: pages marked clean that never reached the disk,
            # readable until the machine stops; a second fsync has nothing left to write.
            if node.kind == "f" and node.pending:
                node.lost = True
                node.pending = []
                self.gave_up += 1
            raise
        self.syncs += 1
        if node.kind == "d":
            self.sync_dir(node)
        else:
            self._flush(node)

    def sys_sync(self):
        self.k.enter("fsync", "*")
        self.sync_all()

    def stat_of(self, node):
        size = len(node.data) if node.kind == "f" else 4096
        return _os.stat_result((node.mode, node.ino, 77, node.nlink, 0, 0, size,
                                node.mtime, node.mtime, node.ctime))

    def sys_stat(self, path):
        self.k.enter("stat", path)
        node = self.lookup(path)
        if path.endswith("/") and node.kind != "d":
            raise err(errno.ENOTDIR, path)
        return self.stat_of(node)

    def sys_fstat(self, fd):
        return self.stat_of(self.of(fd).inode)

    def sys_access(self, path):
        self.k.enter("access", path)
        return self.find(path) is not None

    def _ordered(self, names):
        return sorted(names, key=lambda n: zlib.crc32(n.encode("utf-8", "surrogateescape"),
                                                      self.order_seed & 0xffffffff))

    def sys_listdir(self, path):
        self.k.enter("listdir", path)
        node = self.lookup(path)
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        return [(n, node.entries[n]) for n in self._ordered(node.entries)]

    def sys_mkdir(self, path, mode=0o777):
        self.k.enter("mkdir", path)
        d, name = self.parent(path)
        if name in d.entries:
            raise err(errno.EEXIST, path)
        node = self._new("d")
        d.entries[name] = node
        self._meta("link", d, name, node)
        self._mut(path)

    def sys_rmdir(self, path):
        self.k.enter("rmdir", path)
        d, name = self.parent(path)
        node = d.entries.get(name)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != "d":
            raise err(errno.ENOTDIR, path)
        if node.entries:
            raise err(errno.ENOTEMPTY, path)
        del d.entries[name]
        self._meta("unlink", d, name)
        self._mut(path)

    def sys_unlink(self, path):
        self.k.enter("unlink", path)
        d, name = self.parent(path)
        node = d.entries.get(name)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind == "d":
            raise err(errno.EISDIR, path)
        node.nlink -= 1
        del d.entries[name]
        self._meta("unlink", d, name)
        self._mut(path)

    def sys_link(self, src, dst):
        self.k.enter("link", dst)
        node = self.lookup(src)
        if node.kind == "d":
            raise err(errno.EPERM, src)
        d, name = self.parent(dst)
        if name in d.entries:
            raise err(errno.EEXIST, dst)
        node.nlink += 1
        d.entries[name] = node
        self._meta("link", d, name, node)
        self._mut(dst)

    def sys_rename(self, src, dst):
        self.k.enter("rename", dst)
        d1, n1 = self.parent(src)
        node = d1.entries.get(n1)
        if node is None:
            raise err(errno.ENOENT, src)
        d2, n2 = self.parent(dst)
        old = d2.entries.get(n2)
        if old is node:
            return
        if old is not None:
            if old.kind == "d":
                if node.kind != "d":
                    raise err(errno.EISDIR, dst)
                if old.entries:
                    raise err(errno.ENOTEMPTY, dst)
            elif node.kind == "d":
                raise err(errno.ENOTDIR, dst)
        if node.kind == "d" and (dst.rstrip("/") + "/").startswith(src.rstrip("/") + "/"):
            raise err(errno.EINVAL, dst)
        del d1.entries[n1]
        d2.entries[n2] = node
        self._meta("rename", d1, n1, d2, n2, node)
        self._mut(dst)

    # ---- advisory locks -----------------------------------------------------------
    LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8

    def _lock(self, table, key, op, path, proc):
        want = "ex" if op & self.LOCK_EX else "sh"

        def free():
            for k2, m in table.items():
                if k2 is not key and (want == "ex" or m == "ex"):
                    return False
            return True
        if op & self.LOCK_UN:
            table.pop(key, None)
            return
        if not free():
            if op & self.LOCK_NB:
                raise BlockingIOError(errno.EWOULDBLOCK, "locked", path)
            if proc is None:
                raise err(errno.EDEADLK, path)
            self.k.block_until(free)
        table[key] = want

    def sys_flock(self, fd, op):
        of = self.of(fd)
        self.k.enter("flock", of.path, op, owner=of.proc)
        self._lock(of.inode.flocks, of, op, of.path, of.proc)

    def sys_lockf(self, fd, op):
        of = self.of(fd)
        self.k.enter("flock", of.path, op, owner=of.proc)
        self._lock(of.inode.plocks, of.proc, op, of.path, of.proc)


class SimRaw(io.RawIOBase):
    """What FileIO is to a real descriptor."""

    def __init__(self, fs, fd, mode, name, closefd=True):
        super().__init__()
        self._fs = fs
        self._fd = fd
        self._closefd = closefd
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")
        self.mode = mode
        self.name = name
        self._owner = fs.k.proc()

    def fileno(self):
        self._checkopen()
        return self._fd

    def _checkopen(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def isatty(self):
        return False

    def readable(self):
        self._checkopen()
        return self._r

    def writable(self):
        self._checkopen()
        return self._w

    def seekable(self):
        self._checkopen()
        return True

    def readinto(self, b):
        self._checkopen()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        data = self._fs.sys_read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self._checkopen()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        return self._fs.sys_write(self._fd, b)

    def seek(self, off, whence=0):
        self._checkopen()
        return self._fs.sys_lseek(self._fd, off, whence)

    def tell(self):
        self._checkopen()
        return self._fs.sys_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._checkopen()
        if size is None:
            size = self.tell()
        self._fs.sys_ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd:
                self._fs.sys_close(self._fd, self._owner)
