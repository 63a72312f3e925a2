"""In-memory file system mounted at /simfs inside this one Python process.

Every os-level call and every open() whose path lies under /simfs goes to the current SimFS instead of the kernel.
Each such call is one *event*: the file system first tells the kernel object (``hub``) about it, which may yield to
another actor, inject an error, shorten a transfer, or kill the actor.  Bytes handed to write() are durable when write()
returns; bytes still in a user space buffer die with the actor.  Nothing here knows anything about ruleskit.
"""
import builtins
import errno
import io
import os
import stat as statmod
import sys
import threading

ROOT = "/simfs"
FD0 = 10 ** 6


class SimCrash(BaseException):
    """The actor was killed. Not an Exception, so that code under test does not swallow it by accident."""


def oserr(code, path=None):
    e = OSError(code, os.strerror(code), None if path is None else str(path))
    return e  # OSError picks the right subclass (FileNotFoundError, ...) by itself


class Inode:
    __slots__ = ("ino", "kind", "data", "mode", "mtime", "nlink", "children")

    def __init__(self, ino, kind, mode):
        self.ino, self.kind, self.mode = ino, kind, mode
        self.data = bytearray() if kind == "f" else None
        self.children = {} if kind == "d" else None
        self.mtime = 0
        self.nlink = 1


class Handle:
    __slots__ = ("inode", "pos", "rd", "wr", "append", "actor", "path", "closed")

    def __init__(self, inode, path, rd, wr, append, actor):
        self.inode, self.path, self.rd, self.wr, self.append, self.actor = inode, path, rd, wr, append, actor
        self.pos, self.closed = 0, False


class NullHub:
    """Used when nothing is simulated: no faults, no scheduling."""

    def event(self, op, path, size=0):
        return None

    def actor(self):
        return None

    def now(self):
        return 1_600_000_000.0

    def check_alive(self):
        pass


class SimFS:
    def __init__(self, hub=None):
        self.hub = hub or NullHub()
        self.root = Inode(1, "d", 0o755)
        self._ino = 2
        self.fds = {}
        self._fd = FD0
        self.capacity = None  # bytes; None is unlimited
        self.journal = None   # list: (what, actor, operation, path, inode number) of every change to names and sizes

    def _j(self, what, path, node):
        if self.journal is not None:
            a = self.hub.me
            self.journal.append((what, a.aid, a.op, os.path.normpath(os.fspath(path)), node.ino))

    # -- helpers -------------------------------------------------------------
    def _parts(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(p)
        if p == ROOT:
            return []
        return p[len(ROOT) + 1:].split("/")

    def _walk(self, parts, path):
        node = self.root
        for name in parts:
            if node.kind != "d":
                raise oserr(errno.ENOTDIR, path)
            node = node.children.get(name)
            if node is None:
                raise oserr(errno.ENOENT, path)
        return node

    def _parent(self, path):
        parts = self._parts(path)
        if not parts:
            raise oserr(errno.EBUSY, path)
        node = self._walk(parts[:-1], path)
        if node.kind != "d":
            raise oserr(errno.ENOTDIR, path)
        return node, parts[-1]

    def used(self):
        tot, stack = 0, [self.root]
        while stack:
            n = stack.pop()
            if n.kind == "f":
                tot += len(n.data)
            else:
                stack.extend(n.children.values())
        return tot

    def _new(self, kind, mode):
        n = Inode(self._ino, kind, mode)
        n.mtime = self.hub.now()
        self._ino += 1
        return n

    # -- access for the checker itself: no events ---------------------------------
    def peek(self, path):
        n = self._walk(self._parts(path), path)
        if n.kind != "f":
            raise oserr(errno.EISDIR, path)
        return bytes(n.data)

    def poke(self, path, data):
        parent, name = self._parent(path)
        n = self._new("f", 0o644)
        n.data[:] = data
        parent.children[name] = n

    def forget(self, path):
        parent, name = self._parent(path)
        parent.children.pop(name, None)

    def mkdirs(self, path):
        node = self.root
        for name in self._parts(path):
            node = node.children.setdefault(name, self._new("d", 0o755))

    def tree(self):
        out = {}

        def rec(prefix, n):
            for k in sorted(n.children):
                c = n.children[k]
                if c.kind == "d":
                    out[prefix + k + "/"] = None
                    rec(prefix + k + "/", c)
                else:
                    out[prefix + k] = bytes(c.data)

        rec(ROOT + "/", self.root)
        return out

    def inodes(self):
        out = {}

        def rec(prefix, n):
            for k in sorted(n.children):
                c = n.children[k]
                if c.kind == "d":
                    rec(prefix + k + "/", c)
                else:
                    out[prefix + k] = c.ino

        rec(ROOT + "/", self.root)
        return out

    # -- system calls -------------------------------------------------------------
    def stat(self, path):
        self.hub.event("stat", path)
        return self._st(self._walk(self._parts(path), path))

    def _st(self, n):
        size = len(n.data) if n.kind == "f" else 4096
        mode = (statmod.S_IFREG if n.kind == "f" else statmod.S_IFDIR) | n.mode
        t = int(n.mtime)
        return os.stat_result((mode, n.ino, 77, n.nlink, 0, 0, size, t, t, t))

    def open(self, path, flags, mode=0o777):
        acc = flags & os.O_ACCMODE
        rd, wr = acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR)
        self.hub.event("creat" if flags & os.O_CREAT else ("openw" if wr else "open"), path)
        parent, name = None, None
        parts = self._parts(path)
        if parts:
            parent, name = self._parent(path)
            node = parent.children.get(name)
        else:
            node = self.root
        if node is None:
            if not flags & os.O_CREAT:
                raise oserr(errno.ENOENT, path)
            node = self._new("f", mode & 0o777)
            parent.children[name] = node
            self._j("create", path, node)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, path)
            if node.kind == "d" and wr:
                raise oserr(errno.EISDIR, path)
            if flags & os.O_TRUNC and wr:
                if node.data:
                    self._j("truncate", path, node)
                del node.data[:]
                node.mtime = self.hub.now()
        self._fd += 1
        self.fds[self._fd] = Handle(node, os.fspath(path), rd, wr, bool(flags & os.O_APPEND), self.hub.actor())
        return self._fd

    def handle(self, fd):
        self.hub.check_alive()
        h = self.fds.get(fd)
        if h is None or h.closed:
            raise oserr(errno.EBADF)
        return h

    def read(self, fd, n):
        h = self.handle(fd)
        lim = self.hub.event("read", h.path, n)
        if not h.rd:
            raise oserr(errno.EBADF)
        if h.inode.kind == "d":
            raise oserr(errno.EISDIR, h.path)
        if n is None or n < 0:
            n = len(h.inode.data)
        if lim is not None:
            n = max(1, min(n, lim)) if n else 0
        out = bytes(h.inode.data[h.pos:h.pos + n])
        h.pos += len(out)
        return out

    def write(self, fd, data):
        h = self.handle(fd)
        data = bytes(data)
        try:
            lim = self.hub.event("write", h.path, len(data))
        except TornWrite as t:
            # part of the bytes reach the file, then the error is reported
            self._put(h, data[:t.keep])
            raise t.error
        if not h.wr:
            raise oserr(errno.EBADF)
        if lim is not None and data:
            data = data[:max(1, lim)]
        if self.capacity is not None:
            room = self.capacity - self.used()
            if room <= 0 and data:
                raise oserr(errno.ENOSPC, h.path)
            data = data[:max(room, 0)] if len(data) > room else data
        self._put(h, data)
        return len(data)

    def _put(self, h, data):
        d = h.inode.data
        if h.append:
            h.pos = len(d)
        if h.pos > len(d):
            d.extend(b"\0" * (h.pos - len(d)))
        d[h.pos:h.pos + len(data)] = data
        h.pos += len(data)
        h.inode.mtime = self.hub.now()

    def lseek(self, fd, off, whence=0):
        h = self.handle(fd)
        base = {0: 0, 1: h.pos, 2: len(h.inode.data or b"")}[whence]
        if base + off < 0:
            raise oserr(errno.EINVAL)
        h.pos = base + off
        return h.pos

    def ftruncate(self, fd, size):
        h = self.handle(fd)
        self.hub.event("truncate", h.path)
        self._trunc(h.inode, size)

    def truncate(self, path, size):
        self.hub.event("truncate", path)
        self._trunc(self._walk(self._parts(path), path), size)

    def _trunc(self, n, size):
        if len(n.data) > size:
            del n.data[size:]
        else:
            n.data.extend(b"\0" * (size - len(n.data)))

    def fsync(self, fd):
        h = self.handle(fd)
        self.hub.event("fsync", h.path)

    def close(self, fd):
        h = self.handle(fd)
        h.closed = True
        del self.fds[fd]
        self.hub.event("close", h.path)

    def fstat(self, fd):
        return self._st(self.handle(fd).inode)

    def unlink(self, path):
        self.hub.event("unlink", path)
        parent, name = self._parent(path)
        n = parent.children.get(name)
        if n is None:
            raise oserr(errno.ENOENT, path)
        if n.kind == "d":
            raise oserr(errno.EISDIR, path)
        n.nlink -= 1
        del parent.children[name]
        self._j("gone", path, n)

    def rename(self, a, b):
        self.hub.event("rename", a)
        pa, na = self._parent(a)
        if na not in pa.children:
            raise oserr(errno.ENOENT, a)
        pb, nb = self._parent(b)
        tgt = pb.children.get(nb)
        if tgt is not None and tgt.kind == "d":
            raise oserr(errno.EISDIR, b)
        node = pa.children.pop(na)
        if tgt is not None and tgt is not node:
            self._j("gone", b, tgt)
        pb.children[nb] = node
        self._j("moved", b, node)

    def link(self, a, b):
        self.hub.event("link", a)
        n = self._walk(self._parts(a), a)
        pb, nb = self._parent(b)
        if nb in pb.children:
            raise oserr(errno.EEXIST, b)
        n.nlink += 1
        pb.children[nb] = n

    def mkdir(self, path, mode=0o777):
        self.hub.event("mkdir", path)
        p, n = self._parent(path)
        if n in p.children:
            raise oserr(errno.EEXIST, path)
        p.children[n] = self._new("d", mode & 0o777)

    def rmdir(self, path):
        self.hub.event("rmdir", path)
        p, n = self._parent(path)
        c = p.children.get(n)
        if c is None:
            raise oserr(errno.ENOENT, path)
        if c.kind != "d":
            raise oserr(errno.ENOTDIR, path)
        if c.children:
            raise oserr(errno.ENOTEMPTY, path)
        del p.children[n]

    def listdir(self, path):
        self.hub.event("listdir", path)
        n = self._walk(self._parts(path), path)
        if n.kind != "d":
            raise oserr(errno.ENOTDIR, path)
        names = sorted(n.children)
        order = getattr(self.hub, "dir_order", None)
        return order(names) if order else names

    def scandir(self, path):
        base = os.fspath(path)
        return _Scan([_Entry(self, base, n) for n in self.listdir(path)])

    def utime(self, path):
        self.hub.event("utime", path)
        n = self._walk(self._parts(path), path)
        n.mtime = self.hub.now()

    def chmod(self, path, mode):
        self.hub.event("chmod", path)
        self._walk(self._parts(path), path).mode = mode & 0o777

    def access(self, path):
        self.hub.event("stat", path)
        try:
            self._walk(self._parts(path), path)
            return True
        except OSError:
            return False

    def kill(self, actor):
        """Close the descriptors of a dead actor. User space buffers die with their owner."""
        for fd in [f for f, h in self.fds.items() if h.actor == actor]:
            self.fds[fd].closed = True
            del self.fds[fd]


class TornWrite(Exception):
    def __init__(self, keep, error):
        self.keep, self.error = keep, error


class _Entry:
    def __init__(self, fs, base, name):
        self.name, self.path, self._fs = name, base.rstrip("/") + "/" + name, fs
        try:
            self._n = fs._walk(fs._parts(self.path), self.path)
        except OSError:
            self._n = None

    def is_dir(self, follow_symlinks=True):
        return self._n is not None and self._n.kind == "d"

    def is_file(self, follow_symlinks=True):
        return self._n is not None and self._n.kind == "f"

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._n.ino if self._n else 0

    def stat(self, follow_symlinks=True):
        return self._fs.stat(self.path)

    def __fspath__(self):
        return self.path


class _Scan:
    def __init__(self, it):
        self._it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class SimRaw(io.RawIOBase):
    def __init__(self, fs, fd, name, mode):
        self._fs, self._fd, self.name, self.mode = fs, fd, name, mode

    def readable(self):
        return self._fs.handle(self._fd).rd

    def writable(self):
        return self._fs.handle(self._fd).wr

    def seekable(self):
        return True

    def readinto(self, b):
        data = self._fs.read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return self._fs.write(self._fd, b)

    def seek(self, off, whence=0):
        return self._fs.lseek(self._fd, off, whence)

    def tell(self):
        return self._fs.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._fs.ftruncate(self._fd, self.tell() if size is None else size)
        return size

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            fd, self._fd2 = self._fd, None
            super().close()
            if fd in self._fs.fds:
                self._fs.close(fd)

    def __del__(self):
        # an abandoned file object must not produce events at an arbitrary moment of garbage collection
        try:
            self._fs.fds.pop(self._fd, None)
        except Exception:
            pass


class SimFile(io.BufferedIOBase):
    """Binary file object. Deliberately not io.BufferedReader/Writer: numpy would bypass those and use the real fd."""

    def __init__(self, raw, mode, buffering=-1):
        self._raw_, self.mode, self.name = raw, mode, raw.name
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in mode:
            self._b = io.BufferedRandom(raw, size)
        elif "r" in mode:
            self._b = io.BufferedReader(raw, size)
        else:
            self._b = io.BufferedWriter(raw, size)

    raw = property(lambda s: s._raw_)
    closed = property(lambda s: s._b.closed)

    def readable(self):
        return self._b.readable()

    def writable(self):
        return self._b.writable()

    def seekable(self):
        return True

    def read(self, n=-1):
        return self._b.read(n)

    def read1(self, n=-1):
        return self._b.read1(n)

    def readinto(self, b):
        return self._b.readinto(b)

    def readinto1(self, b):
        return self._b.readinto1(b)

    def readline(self, n=-1):
        return self._b.readline(n)

    def peek(self, n=0):
        return self._b.peek(n)

    def write(self, b):
        return self._b.write(b)

    def flush(self):
        if not self._b.closed:
            self._b.flush()

    def seek(self, o, w=0):
        return self._b.seek(o, w)

    def tell(self):
        return self._b.tell()

    def truncate(self, size=None):
        self._b.flush()
        return self._raw_.truncate(self.tell() if size is None else size)

    def fileno(self):
        return self._raw_.fileno()

    def isatty(self):
        return False

    def close(self):
        self._b.close()

    def detach(self):
        return self._b.detach()

    def __del__(self):
        pass


# ----------------------------------------------------------------------------------------------------------------
# Mounting
# ----------------------------------------------------------------------------------------------------------------
class Mount:
    fs = None
    guest = threading.local()
    escaped = []  # attempts of code under test to change the real file system
    installed = False


def _is_sim(p):
    try:
        if isinstance(p, str):
            s = p
        elif isinstance(p, bytes):
            s = os.fsdecode(p)
        elif isinstance(p, int) or p is None:
            return False
        else:
            s = os.fspath(p)
            if isinstance(s, bytes):
                s = os.fsdecode(s)
    except TypeError:
        return False
    return s == ROOT or s.startswith(ROOT + "/")


def _guard(op, path):
    """A call of guest code that would change the real file system: refused, and remembered."""
    if getattr(Mount.guest, "on", False):
        Mount.escaped.append((op, str(path)))
        raise oserr(errno.EROFS, path)


_MODES = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
          "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}


def install():
    if Mount.installed:
        return
    Mount.installed = True
    real = {n: getattr(os, n) for n in (
        "stat", "lstat", "open", "close", "read", "write", "lseek", "ftruncate", "truncate", "fsync", "fdatasync",
        "fstat", "unlink", "remove", "rename", "replace", "link", "symlink", "mkdir", "rmdir", "listdir", "scandir",
        "utime", "chmod", "access", "readlink", "statvfs", "getpid", "urandom", "mkfifo")}
    real_open = io.open
    Mount.real = real
    Mount.real_open = real_open

    def d1(name, method, mutating=False):
        rf = real[name]

        def f(path, *a, **k):
            if _is_sim(path):
                return getattr(Mount.fs, method)(path, *a)
            if mutating:
                _guard(name, path)
            return rf(path, *a, **k)

        f.__name__ = name
        setattr(os, name, f)

    def dfd(name, method):
        rf = real[name]

        def f(fd, *a, **k):
            if isinstance(fd, int) and fd >= FD0:
                return getattr(Mount.fs, method)(fd, *a)
            return rf(fd, *a, **k)

        f.__name__ = name
        setattr(os, name, f)

    def os_stat(path, *a, **k):
        if isinstance(path, int) and path >= FD0:
            return Mount.fs.fstat(path)
        if _is_sim(path):
            return Mount.fs.stat(path)
        return real["stat"](path, *a, **k)

    os.stat = os_stat

    def os_lstat(path, *a, **k):
        return Mount.fs.stat(path) if _is_sim(path) else real["lstat"](path, *a, **k)

    os.lstat = os_lstat

    def os_open(path, flags, mode=0o777, **k):
        if _is_sim(path):
            return Mount.fs.open(path, flags, mode)
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            _guard("open", path)
        return real["open"](path, flags, mode, **k)

    os.open = os_open
    for n, m in (("close", "close"), ("read", "read"), ("write", "write"), ("lseek", "lseek"),
                 ("ftruncate", "ftruncate"), ("fsync", "fsync"), ("fdatasync", "fsync"), ("fstat", "fstat")):
        dfd(n, m)
    for n, m, mut in (("unlink", "unlink", 1), ("remove", "unlink", 1), ("rmdir", "rmdir", 1),
                      ("listdir", "listdir", 0), ("scandir", "scandir", 0), ("truncate", "truncate", 1)):
        d1(n, m, bool(mut))

    def two(name, method):
        rf = real[name]

        def f(a, b, **k):
            sa, sb = _is_sim(a), _is_sim(b)
            if sa and sb:
                return getattr(Mount.fs, method)(a, b)
            if sa or sb:
                raise oserr(errno.EXDEV, b)
            _guard(name, b)
            return rf(a, b, **k)

        f.__name__ = name
        setattr(os, name, f)

    two("rename", "rename")
    two("replace", "rename")
    two("link", "link")

    def os_symlink(a, b, *x, **k):
        if _is_sim(b):
            raise oserr(errno.EPERM, b)
        _guard("symlink", b)
        return real["symlink"](a, b, *x, **k)

    os.symlink = os_symlink

    def os_readlink(p, **k):
        if _is_sim(p):
            raise oserr(errno.EINVAL, p)
        return real["readlink"](p, **k)

    os.readlink = os_readlink

    def os_mkdir(p, mode=0o777, **k):
        if _is_sim(p):
            return Mount.fs.mkdir(p, mode)
        _guard("mkdir", p)
        return real["mkdir"](p, mode, **k)

    os.mkdir = os_mkdir

    def os_utime(p, *a, **k):
        if _is_sim(p):
            return Mount.fs.utime(p)
        if isinstance(p, int) and p >= FD0:
            return None
        _guard("utime", p)
        return real["utime"](p, *a, **k)

    os.utime = os_utime

    def os_chmod(p, mode, **k):
        if _is_sim(p):
            return Mount.fs.chmod(p, mode)
        _guard("chmod", p)
        return real["chmod"](p, mode, **k)

    os.chmod = os_chmod

    def os_access(p, mode, **k):
        if _is_sim(p):
            return Mount.fs.access(p)
        return real["access"](p, mode, **k)

    os.access = os_access

    def os_statvfs(p):
        if _is_sim(p):
            Mount.fs.hub.event("stat", p)
            return os.statvfs_result((4096, 4096, 10 ** 7, 10 ** 7, 10 ** 7, 10 ** 6, 10 ** 6, 10 ** 6, 0, 255))
        return real["statvfs"](p)

    os.statvfs = os_statvfs

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        fd_in = isinstance(file, int) and not isinstance(file, bool) and file >= FD0
        if not fd_in and opener is None and not _is_sim(file):
            if any(c in mode for c in "wax+"):
                _guard("open", file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not fd_in and opener is not None and not _is_sim(file):
            # tempfile.NamedTemporaryFile / TemporaryFile: the opener may return one of our descriptors
            got = []

            def op2(f, fl):
                fd = opener(f, fl)
                got.append(fd)
                return fd

            fd = op2(file, 0)
            if isinstance(fd, int) and fd >= FD0:
                return sim_open(fd, mode, buffering, encoding, errors, newline)
            return real_open(fd, mode, buffering, encoding, errors, newline)
        m = mode.replace("b", "").replace("t", "")
        base = m.replace("+", "")
        if base not in _MODES:
            raise ValueError(f"invalid mode: {mode!r}")
        flags = _MODES[base]
        if "+" in m:
            flags = (flags & ~os.O_ACCMODE) | os.O_RDWR
        fs = Mount.fs
        if fd_in:
            fd = file
            name = fs.handle(fd).path
        elif opener is not None:
            fd = opener(file, flags)
            name = os.fspath(file)
        else:
            fd = fs.open(file, flags, 0o666)
            name = os.fspath(file)
        if fs.handle(fd).inode.kind == "d":
            fs.fds.pop(fd)
            raise oserr(errno.EISDIR, name)
        raw = SimRaw(fs, fd, name, m)
        if base == "a":
            fs.lseek(fd, 0, 2)
        if "b" in mode:
            if buffering == 0:
                return raw
            return SimFile(raw, m, buffering)
        buf = SimFile(raw, m, -1)
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        t.mode = mode
        return t

    builtins.open = sim_open
    io.open = sim_open
    os.open.__module__ = "os"

    import shutil
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_HAS_FCOPYFILE"):
        shutil._HAS_FCOPYFILE = False


def mount(fs):
    Mount.fs = fs
