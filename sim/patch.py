"""Route every source of nondeterminism the repository can reach to the simulator.

`install()` replaces the Python-level entry points (os, builtins.open, io, fcntl,
time, datetime, random, tempfile, atexit, input, stdout).  Paths below VIRTUAL are
served by the simulated file system; every other path is readable on the real one
and writable nowhere.
"""
import atexit
import builtins
import datetime as _dt
import errno
import fcntl
import glob  # noqa: F401  (imported before patching so that it binds the os module)
import io
import logging
import weakref
import logging.handlers  # noqa: F401
import os
import pathlib  # noqa: F401
import posix
import random
import secrets  # noqa: F401
import shutil
import signal
import stat as _stat
import sys
import tempfile
import threading
import time
import uuid  # noqa: F401

from . import fs as simfs

REPO = "/repo"
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/"
VIRTUAL = [REPO + "/dbms", REPO + "/testing/test_gdbms", "/tmp", "/var/tmp", "/sim"]

K = None                # the kernel of the run in progress (or the boot kernel)
REAL = {}
_installed = False


def set_repo(path):
    global REPO
    REPO = path
    VIRTUAL[0] = path + "/dbms"
    VIRTUAL[1] = path + "/testing/test_gdbms"


def set_kernel(k):
    global K
    K = k


def norm(path):
    """Absolute normalised str for a path argument, or None when it is not a path."""
    if isinstance(path, int):
        return None
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if "\0" in p:
        raise ValueError("embedded null byte")
    if not p:
        raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    if not p.startswith("/"):
        p = "/repo/" + p if REPO == "/repo" else REPO + "/" + p
    tail = "/" if p.endswith("/") else ""
    q = os.path.normpath(p)
    if q.startswith("//"):
        q = q[1:]
    return q + tail if q != "/" else q


def virtual(p):
    # a copy of the tree, or of the harness, under /tmp is code and not storage
    if p.startswith(HOME):
        return False
    for v in VIRTUAL[:2] if p.startswith(REPO + "/") else VIRTUAL:
        if p == v or p.startswith(v + "/"):
            return True
    return False


LOG_FD = 900_007


def is_log(p):
    return p.startswith(REPO + "/") and ".log" in p.rsplit("/", 1)[-1]


def _at(path, dir_fd):
    if dir_fd is not None and isinstance(dir_fd, int) and dir_fd >= simfs.FD_BASE:
        s = os.fspath(path)
        if not s.startswith("/"):
            return K.fs.of(dir_fd).path + "/" + s
    return path


def is_simfd(fd):
    return isinstance(fd, int) and fd >= simfs.FD_BASE


def escape(what, p):
    K.escapes.append([what, p])
    raise PermissionError(errno.EACCES, "outside the simulated world", p)


# ---- log device -------------------------------------------------------------
class LogRaw(io.RawIOBase):
    """The log file.  It is not part of the store and takes no simulated time; only
    the log faults of the plan act on it."""

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.mode = "ab"

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        return K.log_bytes

    def tell(self):
        return K.log_bytes

    def truncate(self, size=None):
        return K.log_bytes

    def fileno(self):
        return LOG_FD

    def write(self, b):
        return log_write(b)


def log_write(b):
    n = len(b)
    K.log_writes += 1
    if log_fails():
        if n > 1:
            K.log_fail += 1
            return K.log_rng.randint(1, n)
    K.log_bytes += n
    return n


def log_fails():
    """Raises what the log device does at this moment; True for a short transfer."""
    f = K.log_faults
    if not f or K.proc() is None or K.log_writes <= f.get("after", 0):
        return False
    mode = f["k"]
    if mode == "short":
        return True
    if mode == "enospc":
        K.log_fail += 1
        raise OSError(errno.ENOSPC, "simulated full log disk")
    if mode == "eio" or mode == "flaky" and K.log_rng.random() < 0.5:
        K.log_fail += 1
        raise OSError(errno.EIO, "simulated log I/O error")
    return False


def open_log(name, mode, buffering, encoding, errors, newline):
    raw = LogRaw(name)
    if K is not None and K.proc() is not None:
        K.proc().logs.append(weakref.ref(raw))
    if buffering == 0:
        return raw
    buf = io.BufferedWriter(raw, 4096)
    if "b" in mode:
        return buf
    if encoding in (None, "locale"):
        encoding = K.encoding()
    return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)


def log_call(name, *a):
    """A system call on the descriptor of the log."""
    if name in ("os.write", "os.pwrite"):
        return log_write(a[0])
    if name in ("os.fsync", "os.fdatasync"):
        log_fails()
        return None
    if name == "os.fstat":
        return os.stat_result((_stat.S_IFREG | 0o644, 1, 1, 1, 0, 0, K.log_bytes, 0, 0, 0))
    if name == "os.dup":
        return LOG_FD
    if name == "os.fstatvfs":
        return _VFS
    return 0


# ---- opening ------------------------------------------------------------------
def _mode_flags(mode):
    if not isinstance(mode, str):
        raise TypeError("invalid mode: %r" % (mode,))
    m = set(mode)
    if m - set("axrwb+tU") or len(mode) > len(m):
        raise ValueError("invalid mode: %r" % mode)
    if sum(c in m for c in "xrwa") != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    plus = "+" in m
    if "r" in m:
        fl = os.O_RDWR if plus else os.O_RDONLY
    elif "w" in m:
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif "x" in m:
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    else:
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    return fl | os.O_CLOEXEC


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if isinstance(file, int):
        if file == LOG_FD:
            return open_log("log", mode, buffering, encoding, errors, newline)
        if not is_simfd(file):
            return REAL["open"](file, mode, buffering, encoding, errors, newline,
                                closefd, opener)
        fd = file
        name = file
        fl = _mode_flags(mode)
    else:
        p = norm(file)
        if not virtual(p):
            fl = _mode_flags(mode)
            wr = fl & os.O_ACCMODE != os.O_RDONLY or fl & os.O_CREAT
            if wr and is_log(p):
                return open_log(p, mode, buffering, encoding, errors, newline)
            if wr:
                if p in ("/dev/null",):
                    return REAL["open"](file, mode, buffering, encoding, errors,
                                        newline, closefd, opener)
                escape("open:" + mode, p)
            return REAL["open"](file, mode, buffering, encoding, errors, newline,
                                closefd, opener)
        fl = _mode_flags(mode)
        name = file
        closefd = True
        if opener is not None:
            fd = opener(file, fl)
            if not is_simfd(fd):
                raise OSError(errno.EBADF, "opener left the simulation")
        else:
            fd = K.fs.sys_open(p, fl)
    binary = "b" in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take text arguments")
    of = K.fs.of(fd)
    if of.inode.kind == "d":
        if closefd:
            K.fs.sys_close(fd)
        raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), str(name))
    raw = simfs.SimRaw(K.fs, fd, mode, name, closefd)
    try:
        if "a" in mode:
            of.pos = len(of.inode.data)
        line = False
        size = buffering
        if buffering == 1 and not binary:
            size, line = -1, True
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if size < 0:
            size = K.fs.bufsize
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif "r" in mode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            out = buf
        else:
            if encoding in (None, "locale"):
                encoding = K.encoding()
            out = io.TextIOWrapper(buf, encoding, errors, newline, line)
            out.mode = mode
            try:
                out._CHUNK_SIZE = K.fs.chunk
            except (AttributeError, ValueError):
                pass
        p = K.proc()
        if p is not None and raw._w:
            p.files.add(out)
        return out
    except BaseException:
        raw.close()
        raise


# ---- os functions ----------------------------------------------------------------
def _path_call(real, simcall, writes):
    def f(path, *a, dir_fd=None, follow_symlinks=True, **kw):
        if isinstance(path, int):
            if is_simfd(path):
                return simcall(path, *a, **kw)
        else:
            path = _at(path, dir_fd)
            p = norm(path)
            if virtual(p):
                return simcall(p, *a, **kw)
            if writes and is_log(p):
                return None
            if writes:
                escape(real, p)
        if dir_fd is not None:
            kw["dir_fd"] = dir_fd
        if not follow_symlinks:
            kw["follow_symlinks"] = False
        return REAL[real](path, *a, **kw)
    f.__name__ = real
    return f


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = norm(_at(path, dir_fd))
    if virtual(p) or p.rstrip("/") in (REPO, REPO + "/testing", "") and K.proc() is not None:
        return K.fs.sys_open(p, flags, mode)
    if flags & os.O_ACCMODE != os.O_RDONLY or flags & (os.O_CREAT | os.O_TRUNC):
        if is_log(p):
            return LOG_FD
        escape("os.open", p)
    return REAL["os.open"](path, flags, mode)


def _fd_call(real, simcall):
    def f(fd, *a):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if fd == LOG_FD:
            return log_call(real, *a)
        if is_simfd(fd):
            return simcall(fd, *a)
        return REAL[real](fd, *a)
    f.__name__ = real
    return f


def os_stat(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        if is_simfd(path):
            return K.fs.sys_fstat(path)
        return REAL["os.stat"](path)
    p = norm(_at(path, dir_fd))
    if virtual(p):
        return K.fs.sys_stat(p)
    if is_log(p) and K is not None:
        return log_call("os.fstat")
    return REAL["os.stat"](path, follow_symlinks=follow_symlinks)


def os_lstat(path, *, dir_fd=None):
    return os_stat(path, dir_fd=dir_fd, follow_symlinks=False)


def os_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    if not isinstance(path, int):
        p = norm(_at(path, dir_fd))
        if virtual(p):
            return K.fs.sys_access(p)
    return REAL["os.access"](path, mode)


def os_listdir(path="."):
    if isinstance(path, int):
        if is_simfd(path):
            return [n for n, _ in K.fs.sys_listdir(K.fs.of(path).path)]
        return REAL["os.listdir"](path)
    p = norm(path)
    if virtual(p):
        names = [n for n, _ in K.fs.sys_listdir(p)]
        return [os.fsencode(n) for n in names] if isinstance(path, bytes) else names
    return REAL["os.listdir"](path)


class DirEntry:
    def __init__(self, base, name, node):
        self.name = name
        self.path = os.path.join(base, name)
        self._node = node

    def __fspath__(self):
        return self.path

    def __repr__(self):
        return "<DirEntry %r>" % self.name

    def inode(self):
        return self._node.ino

    def is_dir(self, *, follow_symlinks=True):
        return self._node.kind == "d"

    def is_file(self, *, follow_symlinks=True):
        return self._node.kind == "f"

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return os.stat(self.path)


class ScanDir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def os_scandir(path="."):
    if not isinstance(path, int):
        p = norm(path)
        if virtual(p):
            base = os.fspath(path)
            return ScanDir([DirEntry(base, n, node) for n, node in K.fs.sys_listdir(p)])
    elif is_simfd(path):
        base = K.fs.of(path).path
        return ScanDir([DirEntry(base, n, node) for n, node in K.fs.sys_listdir(base)])
    return REAL["os.scandir"](path)


def _two(real, simcall):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None, **kw):
        a, b = norm(_at(src, src_dir_fd)), norm(_at(dst, dst_dir_fd))
        va, vb = virtual(a), virtual(b)
        if va and vb:
            return simcall(a, b)
        if is_log(a) and is_log(b):
            return None                         # rotation; what the log holds does not matter
        escape(real, b if va else a)
    f.__name__ = real
    return f


def _mode_noop(real):
    def f(path, *a, **kw):
        if is_simfd(path):
            return None
        if hasattr(path, "fileno"):
            path = path.fileno()
        if isinstance(path, int):
            return None if is_simfd(path) else REAL[real](path, *a)
        p = norm(_at(path, kw.get("dir_fd")))
        if virtual(p):
            K.enter("stat", p)
            K.fs.lookup(p)
            return None
        escape(real, p)
    f.__name__ = real
    return f


def os_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    p = norm(_at(dst, dir_fd))
    if virtual(p):
        raise OSError(errno.EPERM, "no symbolic links here", p)
    escape("os.symlink", p)


def os_getpid():
    p = K.proc() if K else None
    return p.pid if p is not None else REAL["os.getpid"]()


# ---- signals ------------------------------------------------------------------
def sig_signal(num, handler):
    p = K.proc() if K is not None else None
    if p is None:
        return REAL["signal.signal"](num, handler)
    old = sig_getsignal(num)
    p.handlers[num] = handler
    return old


def sig_getsignal(num):
    p = K.proc() if K is not None else None
    if p is None:
        return REAL["signal.getsignal"](num)
    return p.handlers.get(num, signal.default_int_handler if num == signal.SIGINT else signal.SIG_DFL)


def sig_mask(how, mask):
    p = K.proc() if K is not None else None
    if p is None:
        return REAL["signal.pthread_sigmask"](how, mask)
    old, mask = set(p.masked), set(mask)
    p.masked = old | mask if how == signal.SIG_BLOCK else old - mask if how == signal.SIG_UNBLOCK else mask
    if signal.SIGINT in p.pending - p.masked:
        p.pending.discard(signal.SIGINT)
        K.sigint(p)
    return old


def sig_raise(num):
    p = K.proc() if K is not None else None
    if p is None:
        return REAL["signal.raise_signal"](num)
    h = sig_getsignal(num)
    if num == signal.SIGINT:
        K.sigint(p)
    elif callable(h):
        h(num, None)
    elif h == signal.SIG_DFL:
        os_kill(os_getpid(), num)


def os_kill(pid, sig):
    p = K.proc() if K else None
    if p is None:
        return REAL["os.kill"](pid, sig)
    if sig == 0:
        for q in K.procs:
            if q.pid == pid and not q.dead:
                return None
        raise ProcessLookupError(errno.ESRCH, "No such process")
    escape("os.kill", str(pid))


def os_urandom(n):
    if K is not None:
        return K.entropy.randbytes(n)
    return REAL["os.urandom"](n)


# ---- fcntl -----------------------------------------------------------------------
def f_flock(fd, op):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if fd == LOG_FD:
        return None
    if is_simfd(fd):
        return K.fs.sys_flock(fd, op)
    return REAL["fcntl.flock"](fd, op)


def f_lockf(fd, op, len=0, start=0, whence=0):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if fd == LOG_FD:
        return None
    if is_simfd(fd):
        return K.fs.sys_lockf(fd, op)
    return REAL["fcntl.lockf"](fd, op, len, start, whence)


def f_fcntl(fd, cmd, arg=0):
    if hasattr(fd, "fileno"):
        fd = fd.fileno()
    if is_simfd(fd):
        return 0
    return REAL["fcntl.fcntl"](fd, cmd, arg)


# ---- time ------------------------------------------------------------------------
def _now():
    return K.now()


REAL_DATETIME = _dt.datetime


class SimDateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        # (fromtimestamp() of a subclass forgets which of the two 01:30s of an autumn night it is)
        return cls.fromtimestamp(_now(), tz).replace(fold=REAL_DATETIME.fromtimestamp(_now(), tz).fold)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(_now(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(_now())


# ---- process level -----------------------------------------------------------------
class Stdout(io.TextIOBase):
    encoding = "utf-8"

    def write(self, s):
        p = K.proc() if K is not None else None
        if p is None:
            q = K.by_thread.get(threading.get_ident()) if K is not None else None
            if q is None and not QUIET_HOST:
                REAL["stdout"].write(s)
            return len(s)
        if p.dead:
            return len(s)
        p.out.append(s)
        return len(s)

    def flush(self):
        p = K.proc() if K is not None else None
        if p is None and not QUIET_HOST:
            REAL["stdout"].flush()

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


QUIET_HOST = False


class Stderr(Stdout):
    def write(self, s):
        p = K.proc() if K is not None else None
        if p is None and not QUIET_HOST:
            REAL["stderr"].write(s)
        return len(s)

    def flush(self):
        pass


def sim_input(prompt=""):
    p = K.proc()
    if p is None or p.input_fn is None:
        raise EOFError("no terminal")
    sys.stdout.write(str(prompt))
    return p.input_fn(p, str(prompt))


def sim_atexit(func, *a, **kw):
    p = K.proc() if K is not None else None
    if p is None:
        if BOOT_ATEXIT is not None:
            BOOT_ATEXIT.append((func, a, kw))
            return func
        return REAL["atexit.register"](func, *a, **kw)
    p.atexit.append((func, a, kw))
    return func


BOOT_ATEXIT = None


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        return "%08x" % K.entropy.getrandbits(32)


def install():
    global _installed
    from . import threads
    if _installed:
        return
    _installed = True
    r = REAL
    r["open"] = builtins.open
    r["stdout"], r["stderr"] = sys.stdout, sys.stderr
    for n in ("open close read write pread pwrite lseek fsync fdatasync ftruncate truncate "
              "stat lstat fstat access listdir scandir mkdir rmdir unlink remove rename "
              "replace link symlink chmod utime chown getpid kill urandom sync "
              "listxattr getxattr setxattr sendfile fchmod readv writev readlink dup "
              "statvfs fstatvfs posix_fallocate posix_fadvise preadv pwritev fchown").split():
        r["os." + n] = getattr(os, n)
    for n in ("flock", "lockf", "fcntl"):
        r["fcntl." + n] = getattr(fcntl, n)
    r["atexit.register"] = atexit.register
    r["monotonic"] = time.monotonic
    r["time"] = time.time

    S = lambda name: (lambda *a, **kw: getattr(K.fs, name)(*a, **kw))  # noqa: E731
    builtins.open = io.open = sim_open
    os.open = os_open
    os.close = _fd_call("os.close", S("sys_close"))
    os.read = _fd_call("os.read", S("sys_read"))
    os.write = _fd_call("os.write", S("sys_write"))
    os.pread = _fd_call("os.pread", S("sys_read"))
    os.pwrite = _fd_call("os.pwrite", S("sys_write"))
    os.lseek = _fd_call("os.lseek", S("sys_lseek"))
    os.fsync = _fd_call("os.fsync", S("sys_fsync"))
    os.fdatasync = _fd_call("os.fdatasync", S("sys_fsync"))
    os.ftruncate = _fd_call("os.ftruncate", S("sys_ftruncate"))
    os.fstat = _fd_call("os.fstat", S("sys_fstat"))
    os.fchmod = _fd_call("os.fchmod", lambda *a: None)
    os.readv = _fd_call("os.readv", lambda fd, bufs: _readv(fd, bufs))
    os.writev = _fd_call("os.writev", lambda fd, bufs: K.fs.sys_write(fd, b"".join(bufs)))
    os.preadv = _fd_call("os.preadv", lambda fd, bufs, off, *fl: _readv(fd, bufs, off))
    os.pwritev = _fd_call("os.pwritev", lambda fd, bufs, off, *fl: K.fs.sys_write(fd, b"".join(bufs), off))
    os.sync = lambda: K.fs.sys_sync()
    os.dup = _fd_call("os.dup", lambda fd: K.fs.sys_dup(fd))
    os.posix_fallocate = _fd_call("os.posix_fallocate", S("sys_fallocate"))
    os.posix_fadvise = _fd_call("os.posix_fadvise", lambda *a: None)
    os.fchown = _fd_call("os.fchown", lambda *a: None)
    os.fstatvfs = _fd_call("os.fstatvfs", lambda fd: _VFS)

    def statvfs(path):
        if is_simfd(path):
            return _VFS
        p = norm(path)
        if virtual(p):
            K.fs.lookup(p)
            return _VFS
        return REAL["os.statvfs"](path)
    os.statvfs = statvfs

    def os_truncate(path, size):
        if is_simfd(path):
            return K.fs.sys_ftruncate(path, size)
        p = norm(path)
        if virtual(p):
            return K.fs.sys_truncate(p, size)
        escape("os.truncate", p)
    os.truncate = os_truncate
    os.stat, os.lstat, os.access = os_stat, os_lstat, os_access
    os.listdir, os.scandir = os_listdir, os_scandir

    def mk(path, mode=0o777, *, dir_fd=None):
        p = norm(_at(path, dir_fd))
        if virtual(p):
            return K.fs.sys_mkdir(p, mode)
        try:
            node = REAL["os.stat"](path)
        except OSError:
            node = None
        if node is not None:
            raise FileExistsError(errno.EEXIST, "File exists", p)
        escape("os.mkdir", p)
    os.mkdir = mk
    os.rmdir = _path_call("os.rmdir", S("sys_rmdir"), True)
    os.unlink = _path_call("os.unlink", S("sys_unlink"), True)
    os.remove = _path_call("os.remove", S("sys_unlink"), True)
    os.rename = _two("os.rename", S("sys_rename"))
    os.replace = _two("os.replace", S("sys_rename"))
    os.link = _two("os.link", S("sys_link"))
    os.symlink = os_symlink
    for n in ("chmod", "utime", "chown"):
        setattr(os, n, _mode_noop("os." + n))
    os.getpid, os.kill, os.urandom = os_getpid, os_kill, os_urandom

    def lx(path=None, *, follow_symlinks=True):
        return []
    os.listxattr = lx

    def readlink(path, *, dir_fd=None):
        p = norm(_at(path, dir_fd))
        if virtual(p):
            K.fs.lookup(p)
            raise OSError(errno.EINVAL, "not a link", p)
        return REAL["os.readlink"](path)
    os.readlink = readlink

    def sendfile(*a, **kw):
        raise OSError(errno.ENOSYS, "no sendfile")
    os.sendfile = sendfile
    # keep feature probes of shutil / pathlib working with the replacements
    for f in (os.open, os.stat, os.unlink, os.rmdir):
        os.supports_dir_fd.add(f)
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False

    fcntl.flock, fcntl.lockf, fcntl.fcntl = f_flock, f_lockf, f_fcntl

    time.time = _now
    time.time_ns = lambda: int(round(_now() * 1e9))
    mono = lambda: K.monotonic()  # noqa: E731
    mono_ns = lambda: int(K.monotonic() * 1e9)  # noqa: E731
    time.monotonic = time.perf_counter = time.process_time = time.thread_time = mono
    time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = mono_ns
    time.sleep = lambda d: K.sleep(d)
    time.clock_gettime = lambda c: _now() if c == time.CLOCK_REALTIME else K.monotonic()
    lt, gt, ct, st = time.localtime, time.gmtime, time.ctime, time.strftime
    time.localtime = lambda s=None: lt(_now() if s is None else s)
    time.gmtime = lambda s=None: gt(_now() if s is None else s)
    time.ctime = lambda s=None: ct(_now() if s is None else s)
    time.strftime = lambda f, t=None: st(f, lt(_now()) if t is None else t)
    logging.Formatter.converter = staticmethod(time.localtime)
    _dt.datetime = SimDateTime
    _dt.date = SimDate

    for n in ("signal", "getsignal", "pthread_sigmask", "raise_signal"):
        REAL["signal." + n] = getattr(signal, n)
    signal.signal, signal.getsignal = sig_signal, sig_getsignal
    signal.pthread_sigmask, signal.raise_signal = sig_mask, sig_raise
    signal.alarm = signal.setitimer = lambda *a: 0
    os.getrandom = lambda n, flags=0: os_urandom(n)

    def copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
        d = K.fs.sys_read(src, count, offset_src)
        return K.fs.sys_write(dst, d, offset_dst)
    os.copy_file_range = copy_file_range

    tempfile.tempdir = "/tmp"
    tempfile._name_sequence = _Names()

    atexit.register = sim_atexit
    builtins.input = sim_input
    sys.stdout = Stdout()
    sys.stderr = Stderr()
    sys.unraisablehook = lambda u: None
    threads.install()


# block size, blocks (all, free, available), files (all, free, available), longest name
_VFS = os.statvfs_result((4096, 4096, 1 << 24, 1 << 23, 1 << 23, 1 << 20, 1 << 19, 1 << 19, 0, 255))


def _readv(fd, bufs, off=None):
    total = 0
    for b in bufs:
        d = K.fs.sys_read(fd, len(b), None if off is None else off + total)
        b[:len(d)] = d
        total += len(d)
        if len(d) < len(b):
            break
    return total


def reseed(k):
    random.seed(k.entropy.getrandbits(64))
