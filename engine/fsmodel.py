"""Model of the operating system's file calls, for programs which run symbolically. A machine's `fs` maps paths
(str) to contents (list of cells) or to DIR."""
import os
import re
import shutil
import tempfile
import llsym
import pysym
from llir import ity, PTR

DIR = "directory"
ENOENT, EEXIST, ENOTDIR, EISDIR, EBADF, EFAULT = 2, 17, 20, 21, 9, 14
O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_DIRECTORY = 1, 2, 0o100, 0o200, 0o1000, 0o2000, 0o200000


class Open:
    def __init__(self, path, flags):
        self.path, self.flags, self.pos = path, flags, 0


def attach(m, fs):
    m.fs, m.fds = fs, {}


def _path(m, p):
    out, p = [], m.addr(p)
    while True:
        c = m.load_bytes(p, 1)[0]
        if type(c) is not int:
            c = m.fork_value(c, 8)
        if c == 0:
            break
        out.append(c)
        p += 1
    s = bytes(out).decode("latin1")
    if not s:
        return "", False
    if not s.startswith("/"):
        s = getattr(m, "cwd", "/") + "/" + s
    trail = s.endswith("/")
    parts = []
    for x in s.split("/"):
        if x == "..":
            del parts[-1:]
        elif x not in ("", "."):
            parts.append(x)
    return "/" + "/".join(parts), trail


def _node(m, p):
    """node of a path, or an error number"""
    path, trail = p
    fs = m.fs
    if not path:
        return ENOENT
    up = path.rsplit("/", 1)[0]
    while up:
        if up in fs and fs[up] is not DIR:
            return ENOTDIR
        if up not in fs:
            return ENOENT
        up = up.rsplit("/", 1)[0]
    if path != "/" and path not in fs:
        return ENOENT
    n = DIR if path == "/" else fs[path]
    if trail and n is not DIR:
        return ENOTDIR
    return n


def _fail(m, e):
    m.store(ity(32), e, m.exec_errno())
    return (1 << 64) - 1


def _fail32(m, e):
    _fail(m, e)
    return (1 << 32) - 1


def _errno(m):
    if not hasattr(m, "errno"):
        m.errno = m.alloc(4, "global", "errno", [0] * 4).base
    return m.errno


llsym.Machine.exec_errno = _errno
FS = {}


def fs(*names):
    def deco(f):
        for n in names:
            FS[n] = f
        return f
    return deco


@fs("__errno_location")
def _el(m, a, name):
    return _errno(m)


def _open_at(m, p, flags):
    n = _node(m, p)
    write = flags & 3 in (O_WRONLY, O_RDWR)
    if type(n) is int:
        parent = _node(m, (p[0].rsplit("/", 1)[0] or "/", False))
        if n != ENOENT or not flags & O_CREAT or parent is not DIR or p[1]:
            return _fail32(m, n)
        m.fs[p[0]] = []
    elif n is DIR:
        if write:
            return _fail32(m, EISDIR)
    elif flags & O_CREAT and flags & O_EXCL:
        return _fail32(m, EEXIST)
    elif flags & O_DIRECTORY:
        return _fail32(m, ENOTDIR)
    elif flags & O_TRUNC and write:
        m.fs[p[0]] = []
    fd = 100 + len(m.fds)
    m.fds[fd] = Open(p[0], flags)
    return fd


@fs("open", "open64")
def _open(m, a, name):
    return _open_at(m, _path(m, a[0]), a[1])


@fs("openat", "openat64")
def _openat(m, a, name):
    return _open_at(m, _path(m, a[1]), a[2])


@fs("close")
def _close(m, a, name):
    if a[0] not in m.fds or m.fds[a[0]] is None:
        return _fail32(m, EBADF)
    m.fds[a[0]] = None
    return 0


@fs("fcntl", "fcntl64")
def _fcntl(m, a, name):                        # std asks whether a descriptor is open before closing it
    if m.fds.get(a[0]) is None:
        return _fail32(m, EBADF)
    if a[1] != 1:
        raise pysym.Inconclusive("fcntl %s" % a[1])
    return 0


@fs("read")
def _read(m, a, name):
    f = m.fds.get(a[0])
    if f is None or f.flags & 3 == O_WRONLY:
        return _fail(m, EBADF)
    data = m.fs[f.path]
    if data is DIR:
        return _fail(m, EISDIR)
    n = min(m.fork_value(a[2], 64), max(0, len(data) - f.pos))
    m.store_bytes(a[1], data[f.pos:f.pos + n])
    f.pos += n
    return n


@fs("write")
def _write(m, a, name):
    f = m.fds.get(a[0])
    if f is None or f.flags & 3 not in (O_WRONLY, O_RDWR):
        return _fail(m, EBADF)
    n = m.fork_value(a[2], 64)
    new = m.load_bytes(a[1], n)
    data = list(m.fs[f.path])
    at = len(data) if f.flags & O_APPEND else f.pos
    data += [0] * (at - len(data))
    data[at:at + n] = new
    m.fs[f.path] = data
    f.pos = at + n
    return n


@fs("lseek", "lseek64")
def _lseek(m, a, name):
    f = m.fds.get(a[0])
    if f is None:
        return _fail(m, EBADF)
    off = m.fork_value(a[1], 64)
    off = off - (1 << 64) if off >> 63 else off
    f.pos = off + (0, f.pos, len(m.fs[f.path]))[a[2]]
    return f.pos


@fs("mkdir")
def _mkdir(m, a, name):
    p = _path(m, a[0])
    n = _node(m, (p[0], False))
    if type(n) is not int:
        return _fail32(m, EEXIST)
    parent = _node(m, (p[0].rsplit("/", 1)[0] or "/", False))
    if n != ENOENT or parent is not DIR:
        return _fail32(m, n if type(parent) is not int else parent)
    m.fs[p[0]] = DIR
    return 0


@fs("access", "faccessat")
def _access(m, a, name):
    n = _node(m, _path(m, a[0] if name.endswith("access") else a[1]))
    return _fail32(m, n) if type(n) is int else 0


@fs("unlink")
def _unlink(m, a, name):
    p = _path(m, a[0])
    n = _node(m, p)
    if type(n) is int or n is DIR:
        return _fail32(m, n if type(n) is int else EISDIR)
    del m.fs[p[0]]
    return 0


@fs("fsync", "fdatasync")
def _fsync(m, a, name):
    return 0 if m.fds.get(a[0]) is not None else _fail32(m, EBADF)


def _mode(n):
    return 0o40755 if n is DIR else 0o100644


def _stat_to(m, n, buf):
    m.store_bytes(buf, [0] * 144)
    m.store(ity(64), 1, m.addr(buf) + 16)
    m.store(ity(32), _mode(n), m.addr(buf) + 24)
    m.store(ity(64), 4096 if n is DIR else len(n), m.addr(buf) + 48)
    return 0


@fs("stat", "stat64", "lstat", "lstat64")
def _stat(m, a, name):
    n = _node(m, _path(m, a[0]))
    return _fail32(m, n) if type(n) is int else _stat_to(m, n, a[1])


@fs("fstat", "fstat64")
def _fstat(m, a, name):
    f = m.fds.get(a[0])
    return _fail32(m, EBADF) if f is None else _stat_to(m, m.fs[f.path], a[1])


@fs("statx")
def _statx(m, a, name):
    if a[1] == 0 or a[4] == 0:
        return _fail32(m, EFAULT)
    p = _path(m, a[1])
    if p[0] == "/" and a[2] & 0x1000:
        f = m.fds.get(a[0])
        n = EBADF if f is None else m.fs[f.path]
    else:
        n = _node(m, p)
    if type(n) is int:
        return _fail32(m, n)
    m.store_bytes(a[4], [0] * 256)
    at = m.addr(a[4])
    m.store(ity(32), 0xfff, at)
    m.store(ity(16), _mode(n), at + 28)
    m.store(ity(64), 4096 if n is DIR else len(n), at + 40)
    return 0


@fs("chdir")
def _chdir(m, a, name):
    p = _path(m, a[0])
    n = _node(m, p)
    if n is not DIR:
        return _fail32(m, n if type(n) is int else ENOTDIR)
    m.cwd = p[0]
    return 0


# ---- what the stand-ins of engine/cppstub call

def _neg(e, w):
    return (1 << w) - e


@fs("flatdata_fs_kind")
def _kind(m, a, name):
    n = _node(m, _path(m, a[0]))
    return _neg(n, 32) if type(n) is int else 1 if n is DIR else 0


@fs("flatdata_fs_size")
def _size(m, a, name):
    n = _node(m, _path(m, a[0]))
    return _neg(n, 64) if type(n) is int else 4096 if n is DIR else len(n)


@fs("flatdata_fs_mkdir")
def _fmkdir(m, a, name):
    if _mkdir(m, a, name) == 0:
        return 0
    return _neg(m.load(ity(32), _errno(m)), 32)


@fs("flatdata_fs_remove")
def _fremove(m, a, name):
    p = _path(m, a[0])
    n = _node(m, p)
    if type(n) is int:
        return _neg(n, 32)
    if n is DIR and any(x.startswith(p[0] + "/") for x in m.fs):
        return _neg(39, 32)
    del m.fs[p[0]]
    return 0


@fs("flatdata_fs_map")
def _map(m, a, name):
    n = _node(m, _path(m, a[0]))
    if type(n) is int or n is DIR:
        return 0
    o = m.alloc(len(n), "heap", "mapping", list(n))
    hook = getattr(m, "map_hook", None)
    if hook:
        hook(m)
    return o.base


@fs("flatdata_fs_unmap")
def _unmap(m, a, name):
    llsym._free(m, a, name)


# ---- file streams of libstdc++

class FileSink(llsym.Sink):
    """data reaches the file when the stream is flushed, sought or closed"""
    path = None

    def __init__(self):
        super().__init__()
        self.pending = []

    def write(self, cells):
        self.pending += cells

    def sync(self, m):
        if self.path is None or not self.pending:
            return
        data = list(m.fs.get(self.path, []))
        data += [0] * (self.pos - len(data))
        data[self.pos:self.pos + len(self.pending)] = self.pending
        self.pos += len(self.pending)
        self.pending = []
        m.fs[self.path] = data


def _stream(m, a):
    import llcpp
    this = m.addr(a[0])
    llcpp._fake_stream(m, this, 0, 248)
    s = FileSink()
    s.base, s.ios, s.text = this, this + 248, None
    m.sinks[this] = m.sinks[this + 248] = s
    return s


def _sopen(m, s, p, mode):
    p = _path(m, p)
    n = _node(m, p)
    parent = _node(m, (p[0].rsplit("/", 1)[0] or "/", False))
    if s.path is not None or n is DIR or p[1] or (type(n) is int and (n != ENOENT or parent is not DIR)) or not p[0]:
        st = m.load(ity(32), s.ios + 32)
        m.store(ity(32), st | 4, s.ios + 32)
        return
    if type(n) is int or not mode & 1 and not mode & 8:
        m.fs[p[0]] = []
    s.path = p[0]
    s.pos = len(m.fs[p[0]]) if mode & 3 else 0


def _cstr_of(m, a):
    return m.load(llsym.PTR if hasattr(llsym, "PTR") else PTR, m.addr(a))


def _of_ctor(m, a, name):
    s = _stream(m, a)
    if len(a) > 1:
        _sopen(m, s, _cstr_of(m, a[1]) if "ERKNSt7" in name else a[1], m.fork_value(a[2], 32))


def _of_open(m, a, name):
    _sopen(m, m.sinks[m.addr(a[0])], _cstr_of(m, a[1]) if "ERKNSt7" in name else a[1], m.fork_value(a[2], 32))


def _of_close(m, a, name):
    s = m.sinks[m.addr(a[0])]
    s.sync(m)
    s.path = None


def _of_is_open(m, a, name):
    return int(m.sinks[m.addr(a[0])].path is not None)


def _of_delete(m, a, name):
    _of_close(m, a, name)
    if name.endswith("D0Ev"):
        llsym._free(m, a, name)


def _clog(m, o):
    import llcpp
    llcpp._fake_stream(m, o.base, 0, 8)


llsym.GLOBALS += [(re.compile(r"^@_ZSt4c(log|err|out)$"), _clog)]
_OF = r"^@_ZNK?St14basic_ofstreamIcSt11char_traitsIcEE"
llsym.PATTERNS[:0] = [(re.compile(_OF + x), f) for x, f in (("C[12]E", _of_ctor), ("4openE", _of_open), ("5closeE", _of_close),
                                                           ("7is_openE", _of_is_open), ("D[012]E", _of_delete))]


class World:
    """the directory the storage works on"""

    def __init__(self, env, c, nodes):
        self.env, self.c, self.nodes = env, c, nodes
        if env.symbolic:
            self.root = "/fake/root"
            fs = {"/fake": DIR, self.root: DIR}
            for n, v in nodes.items():
                fs[self.root + "/" + n] = v if v is DIR else [pysym._int_to_cell(x) if isinstance(x, pysym.SymInt) else x
                                                              for x in (v.cells() if hasattr(v, "cells") else v)]
            attach(c.m, fs)
            return
        self.root = tempfile.mkdtemp(prefix="verif_fs")
        for n, v in nodes.items():
            p = os.path.join(self.root, n)
            if v is DIR:
                os.makedirs(p, exist_ok=True)
            else:
                open(p, "wb").write(bytes(v))

    def content(self, n):
        """cells of a file, DIR, or None"""
        if self.env.symbolic:
            v = self.c.m.fs.get(self.root + "/" + n)
            return v if v is None or v is DIR else list(pysym.SymBytes(v)) if len(v) else []
        p = os.path.join(self.root, n)
        if os.path.isdir(p):
            return DIR
        return list(open(p, "rb").read()) if os.path.exists(p) else None

    def names(self):
        if self.env.symbolic:
            return sorted(p[len(self.root) + 1:] for p in self.c.m.fs if p.startswith(self.root + "/"))
        return sorted(os.path.relpath(os.path.join(r, x), self.root) for r, d, f in os.walk(self.root) for x in d + f)

    def close(self):
        if not self.env.symbolic:
            shutil.rmtree(self.root)
        self.c.close()


def pick(env, name, options):
    i = env.int_in(name, 0, len(options) - 1)
    for k in range(len(options) - 1):
        if i == k:
            return options[k]
    return options[-1]
