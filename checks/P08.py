"""P08: Python storages of archives in directories and tar files."""
import contextlib, io, os, shutil, stat, sys, tarfile, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pylib import *
from flatdata.lib import file_resource_storage, file_resource_writer, tar_archive_resource_storage
from flatdata.lib.file_resource_storage import FileResourceStorage
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
from flatdata.lib.resource_storage import ResourceStorage

F = ["flatdata.lib.file_resource_storage.FileResourceStorage.*", "flatdata.lib.tar_archive_resource_storage.TarArchiveResourceStorage.*",
     "flatdata.lib.file_resource_writer.FileResourceWriter.*", "flatdata.lib.resource_storage.*", "flatdata.lib.inspector.open_archive"]
ROOT = "/fake/root"


def pick(env, name, options):
    i = env.int_in(name, 0, len(options) - 1)
    for k in range(len(options) - 1):
        if i == k:
            return options[k]
    return options[-1]


# ----------------------------------------------------------------- stand-in for the operating system

class FakeFile:
    """an open file of a FakeSystem"""

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode, self.pos, self.closed = fs, path, mode, 0, False
        if "w" in mode:
            fs.nodes[path] = b""
        elif type(fs.nodes.get(path)) is dict or path not in fs.nodes:
            raise FileNotFoundError(path)
        fs.handles.append(self)
        self.pending = b""

    def fileno(self):
        return 1000 + self.fs.handles.index(self)

    def write(self, data):
        if self.closed or not ("w" in self.mode or "a" in self.mode) or "b" not in self.mode:
            raise ValueError("not writable")
        self.pending = self.pending + data if len(self.pending) else data
        return len(data)

    def read(self, n=-1):
        data = self.fs.nodes[self.path][self.pos:]
        data = data if n is None or n < 0 else data[:n]
        self.pos += len(data)
        return data

    def flush(self):
        if len(self.pending):
            old = self.fs.nodes[self.path]
            self.fs.nodes[self.path] = old + self.pending if len(old) else self.pending
            self.pending = b""

    def close(self):
        self.flush()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakePath:
    """os.path of a FakeSystem"""

    def __init__(self, fs):
        self.fs = fs

    def __getattr__(self, name):
        if name in ("join", "dirname", "basename", "split", "splitext", "normpath", "sep", "isabs", "commonpath", "commonprefix"):
            return getattr(os.path, name)
        raise AttributeError(name)

    def exists(self, p):
        return self.fs.at(p) is not None

    lexists = exists

    def isdir(self, p):
        return self.fs.at(p) is dict

    def isfile(self, p):
        return self.fs.at(p) is bytes

    def getsize(self, p):
        return self.fs.stat(p).st_size

    def abspath(self, p):
        return os.path.normpath(p)

    realpath = abspath


class Status:
    pass


class FakeSystem:
    """os module over dictionaries: path -> content, or dict for directories"""
    sep = "/"
    SEEK_END = os.SEEK_END

    def __init__(self, nodes):
        self.nodes = {"/fake": dict, ROOT: dict}
        for n, v in nodes.items():
            self.nodes[ROOT + "/" + n] = v
        self.handles = []
        self.path = FakePath(self)

    def at(self, p):
        p = os.path.normpath(os.fspath(p))
        v = self.nodes.get(p)
        return v if v is None or v is dict else bytes

    def __getattr__(self, name):
        if name in ("fspath", "fsdecode", "fsencode", "PathLike", "error", "linesep"):
            return getattr(os, name)
        raise AttributeError(name)

    def stat(self, p):
        if self.at(p) is None:
            raise FileNotFoundError(p)
        s = Status()
        v = self.nodes[os.path.normpath(os.fspath(p))]
        s.st_size = 4096 if v is dict else len(v)
        s.st_mode = stat.S_IFDIR | 0o755 if v is dict else stat.S_IFREG | 0o644
        return s

    lstat = stat

    def fstat(self, fd):
        return self.stat(self.handles[fd - 1000].path)

    def listdir(self, p="."):
        if self.at(p) is not dict:
            raise NotADirectoryError(p)
        p = os.path.normpath(p)
        return [n[len(p) + 1:] for n in self.nodes if n.startswith(p + "/") and "/" not in n[len(p) + 1:]]

    def mkdir(self, p, mode=0o777):
        q = os.path.normpath(p)
        if q in self.nodes:
            raise FileExistsError(p)
        if self.at(os.path.dirname(q)) is not dict:
            raise FileNotFoundError(p)
        self.nodes[q] = dict

    def makedirs(self, p, mode=0o777, exist_ok=False):
        q = os.path.normpath(p)
        if q in self.nodes and not exist_ok:
            raise FileExistsError(p)
        todo = []
        while q not in self.nodes:
            todo.append(q)
            q = os.path.dirname(q)
        for d in reversed(todo):
            self.nodes[d] = dict

    def open(self, path, mode="r", *a, **k):
        return FakeFile(self, os.path.normpath(os.fspath(path)), mode)


class FakeMap:
    """mmap module"""
    ACCESS_READ, ACCESS_WRITE, ACCESS_COPY, PROT_READ, MAP_SHARED, MAP_PRIVATE = 1, 2, 3, 1, 1, 2

    def __init__(self, fs):
        self.fs = fs

    def mmap(self, fd, length, *a, **k):
        if k.get("offset"):
            raise EngineMismatch("mapping with an offset")
        data = self.fs.nodes[self.fs.handles[fd - 1000].path]
        if len(data) == 0:
            raise ValueError("cannot mmap an empty file")
        if length and length > len(data):
            raise ValueError("mmap length is greater than file size")
        return data[:length] if length else data


class FakeTar:
    """tarfile module: the members are those of the scenario"""

    def __init__(self, members):
        self.members = members

    def __getattr__(self, name):
        return getattr(tarfile, name)

    def open(self, name=None, mode="r", fileobj=None, **k):
        return self

    TarFile = property(lambda self: self)

    def __iter__(self):
        return iter(self.members)

    def getmembers(self):
        return list(self.members)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


MODULES = [file_resource_storage, file_resource_writer, tar_archive_resource_storage, inspector]


@contextlib.contextmanager
def replaced(fs, tar=None):
    saved = []
    new = {"os": fs, "mmap": FakeMap(fs), "open": fs.open}
    if tar is not None:
        new["tarfile"] = tar
    for m in MODULES:
        for k, v in new.items():
            if k == "open" or k in m.__dict__:
                saved.append((m.__dict__, k, m.__dict__.get(k)))
                m.__dict__[k] = v
    try:
        yield
    finally:
        for d, k, v in saved:
            if v is None:
                del d[k]
            else:
                d[k] = v


@contextlib.contextmanager
def directory(env, nodes):
    """a directory with these files: a real one when replayed; yields (path, function reading a file)"""
    if env.symbolic:
        fs = FakeSystem(nodes)
        with replaced(fs):
            yield ROOT, lambda p: fs.nodes.get(ROOT + "/" + p), lambda: sorted(p[len(ROOT) + 1:] for p in fs.nodes if p.startswith(ROOT + "/"))
        return
    tmp = tempfile.mkdtemp(prefix="verif_p08")
    try:
        for n, v in nodes.items():
            if v is dict:
                os.makedirs(os.path.join(tmp, n), exist_ok=True)
            else:
                os.makedirs(os.path.dirname(os.path.join(tmp, n)), exist_ok=True)
                with open(os.path.join(tmp, n), "wb") as f:
                    f.write(bytes(v))

        def read(p):
            p = os.path.join(tmp, p)
            if os.path.isdir(p):
                return dict
            return open(p, "rb").read() if os.path.exists(p) else None

        def names():
            return sorted(os.path.relpath(os.path.join(r, x), tmp) for r, d, f in os.walk(tmp) for x in d + f)
        yield tmp, read, names
    finally:
        shutil.rmtree(tmp)


# --------------------------------------------------------------------------------------- scenarios

def check_get(env, storage, key, optional, node, label):
    """storage.get of a key denoting node (None, dict, or content)"""
    if node is None and not optional:
        env.prove(raises(MissingResourceError, lambda: storage.get(key, optional)) is not None, label + ": missing resources are reported")
        return None
    got = storage.get(key, optional)
    if node is None:
        env.prove(got is None, label + ": missing optional resources are None")
        return None
    if type(node) is dict or node is dict:
        env.prove(got is not None and type(got) is type(storage), label + ": directories are storages")
        return got
    env.prove(got is not None, label + ": files are found")
    same_bytes(env, got[:], node, label + ": content")
    env.observe("got", list(got[:]))
    return None


NAMES = ["a", "b", "sub", "sub/a", "sub/b", "sub/sub", "sub/sub/a"]


def tree(env, names, sizes):
    """any of these files and directories, with arbitrary contents"""
    nodes = {}
    for n in names:
        if "/" in n and nodes.get(n.rsplit("/", 1)[0]) is not dict:
            continue
        k = pick(env, "kind_" + n, ["none", "file", "dir"] if n.endswith("sub") else ["none", "file"])
        if k == "dir":
            nodes[n] = dict
        elif k == "file":
            size = pick(env, "size_" + n, sizes)
            nodes[n] = env.bytes("c_" + n, size) if size else b""
    return nodes


def children(nodes, prefix=""):
    return sorted(n[len(prefix):] for n in nodes if n.startswith(prefix) and "/" not in n[len(prefix):])


def files(names, sizes):
    def scenario(env):
        nodes = tree(env, names, sizes)
        optional = bool(env.boolean("optional"))
        with directory(env, nodes) as (root, read, _):
            s = FileResourceStorage(root)
            env.prove(sorted(s.ls()) == children(nodes), "listing")
            for n in ("a", "b", "sub"):
                inner = check_get(env, s, n, optional, nodes.get(n), n)
                if inner is not None:
                    env.prove(sorted(inner.ls()) == children(nodes, "sub/"), "listing of a directory")
                    for m in ("a", "sub"):
                        deep = check_get(env, inner, m, optional, nodes.get("sub/" + m), "sub/" + m)
                        if deep is not None:
                            check_get(env, deep, "a", optional, nodes.get("sub/sub/a"), "sub/sub/a")
            env.prove(len(read("a") or b"") == len(nodes.get("a") or b""), "files are not changed")
    return scenario


TYPES_ = {"file": tarfile.REGTYPE, "old": tarfile.AREGTYPE, "contiguous": tarfile.CONTTYPE, "dir": tarfile.DIRTYPE,
          "sparse": tarfile.GNUTYPE_SPARSE, "link": tarfile.SYMTYPE, "fifo": tarfile.FIFOTYPE, "pax-sparse": tarfile.REGTYPE}


def expected(members):
    """{name: dict or content}: what unpacking the members in order gives"""
    out = {}
    for name, kind, data in members:
        if name.startswith("./"):
            name = name[2:]
        parts = name.split("/")
        for i in range(1, len(parts)):
            out.setdefault("/".join(parts[:i]), dict)
        if kind == "dir":
            if name != ".":
                out[name] = dict
        elif kind in ("file", "old", "contiguous"):
            out[name] = data
    return out


@contextlib.contextmanager
def archive_file(env, members, where):
    """tar archive with these members: a real one when replayed"""
    if env.symbolic:
        infos = []
        for (name, kind, data), (off, size) in zip(members, where):
            t = tarfile.TarInfo(name)
            t.type = TYPES_[kind]
            t.size, t.offset_data = size, off
            if "sparse" in kind:
                t.sparse = [(0, size)]
            infos.append(t)
        fs = FakeSystem({"x.tar": env.bytes("tar", TAR)})
        with replaced(fs, FakeTar(infos)):
            yield ROOT + "/x.tar"
        return
    tmp = tempfile.mkdtemp(prefix="verif_p08")
    try:
        path = os.path.join(tmp, "x.tar")
        with tarfile.open(path, "w", format=tarfile.GNU_FORMAT) as tar:
            for name, kind, data in members:
                t = tarfile.TarInfo(name)
                t.type = TYPES_[kind]
                if kind == "link":
                    t.linkname = "a"
                if kind == "pax-sparse":
                    t.pax_headers = {"GNU.sparse.size": str(len(data)), "GNU.sparse.numblocks": "1",
                                     "GNU.sparse.map": "0,%d" % len(data)}
                if kind in ("file", "old", "contiguous", "pax-sparse"):
                    t.size = len(data)
                    if kind == "pax-sparse":
                        tar.format = tarfile.PAX_FORMAT
                        tar.addfile(t, io.BytesIO(bytes(data)))
                        tar.format = tarfile.GNU_FORMAT
                    else:
                        tar.addfile(t, io.BytesIO(bytes(data)))
                else:
                    tar.addfile(t)
        yield path
    finally:
        shutil.rmtree(tmp)


TAR = 12


def tars(names, kinds, top="", free=1):
    """members of these names (or absent), each of any kind, anywhere in the memory"""
    def scenario(env):
        mem = env.bytes("tar", TAR)
        members, where = [], []
        for i, options in enumerate(names):
            name = pick(env, "name%d" % i, options)
            if name is None:
                continue
            kind = "dir" if name.endswith("sub") or name == "." else pick(env, "kind%d" % i, kinds)
            off, size = (env.int_in("off%d" % i, 0, 5), env.int_in("size%d" % i, 0, 4)) if i == free else (i, 1 + i)
            data = b""
            if kind in ("file", "old", "contiguous", "pax-sparse"):
                data = mem[off.__index__():(off + size).__index__()]
            members.append((name, kind, data))
            where.append((off, size))
        plain = [os.path.normpath(n) for n, k, _ in members if k != "dir"]
        env.assume(not any(os.path.normpath(n).startswith(p + "/") for p in plain for n, _, _ in members))   # no file is a directory as well
        with archive_file(env, members, where) as path:
            if any("sparse" in k for _, k, _ in members):
                env.prove(raises(errors.CorruptResourceError, lambda: TarArchiveResourceStorage.create(path)) is not None,
                          "sparse members are refused")
                return
            want = expected(members)
            s = TarArchiveResourceStorage.create(path, top) if top else TarArchiveResourceStorage.create(path)
            prefix = top + "/" if top else ""
            env.prove(sorted(s.ls()) == children(want, prefix), "listing")
            optional = bool(env.boolean("optional"))
            for n in ("a", "b", "sub"):
                inner = check_get(env, s, n, optional, want.get(prefix + n), n)
                if inner is not None:
                    env.prove(sorted(inner.ls()) == children(want, prefix + "sub/"), "listing of a directory")
                    for m in ("a", "sub"):
                        deep = check_get(env, inner, m, optional, want.get(prefix + "sub/" + m), "sub/" + m)
                        if deep is not None:
                            check_get(env, deep, "a", optional, want.get(prefix + "sub/sub/a"), "sub/sub/a")
    return scenario


def writing(chunks, existing):
    """resources written through a storage arrive in the file of their name, complete, and nothing else changes"""
    def scenario(env):
        before = {"other": b"keep"}
        if existing:
            before["out"] = dict
            before["out/r"] = b"old content"
            before["out/s"] = b"stay"
        data = {n: [env.bytes("%s%d" % (n, i), c) if c else b"" for i, c in enumerate(chunks)] for n in "rq"}
        framing = {n: bool(env.boolean("framed_" + n)) for n in "rq"}
        explicit = bool(env.boolean("close"))
        with directory(env, before) as (root, read, names):
            storage = ResourceStorage(FileResourceWriter(), os.path.join(root, "out"))
            rs = {n: storage.get(n) for n in "rq"}
            for i in range(len(chunks)):
                for n in "rq":
                    rs[n].write(data[n][i])
            for n in "rq":
                if framing[n]:
                    rs[n].add_size()
                    rs[n].add_padding()
            if explicit:
                rs["r"].close()
            storage.close()
            for n in "rq":
                want = [c for d in data[n] for c in list(d)]
                got = read("out/" + n)
                env.prove(got is not None and got is not dict, "the resource is in the file of its name")
                same_bytes(env, got, framed(want) if framing[n] else want, "content of the written file")
            env.prove(names() == sorted(list(before) + [x for x in ("out", "out/q", "out/r") if x not in before]), "no other files")
            env.prove(bytes(read("other")) == b"keep" and (not existing or bytes(read("out/s")) == b"stay"), "other files are not changed")
    return scenario


def inspected(tar):
    """open_archive opens the archive which the directory (or tar file) holds, by its name where there are several"""
    schema = {n: "namespace %s { struct S { v : u32 : 17; } archive %s { r : S; } }" % (s, n) for n, s in (("A", "n"), ("B", "n.m"))}

    def scenario(env):
        have = {n: bool(env.boolean("has" + n)) for n in "AB"}
        which = pick(env, "asked", [None, "A", "B", "C"])
        via = pick(env, "via", ["dir", "file"])
        v = env.int_in("value", 0, (1 << 17) - 1)
        nodes = {"zzz": b"1"}
        for n in "AB":
            if have[n]:
                m = module(schema[n])
                cls = getattr(m, "n_A" if n == "A" else "n_m_B")
                nodes.update({n + ".archive": bytes(16), n + ".archive.schema": cls.schema().encode(),
                              "r.schema": cls.resource_schema("r").encode(),
                              "r": mk_bytes(env, framed([v & 255, (v >> 8) & 255, v >> 16]))})
        found = [n for n in "AB" if have[n]]
        if which is None:
            ok = found[0] if len(found) == 1 else None
        else:
            ok = which if which in found else None
        if len(found) == 2:
            env.assume(ok is None or ok == "B")      # both store their resource in the file r
        with directory(env, nodes) as (root, read, _):
            path = root if via == "dir" else os.path.join(root, "zzz")
            if ok is None:
                env.prove(raises(RuntimeError, lambda: inspector.open_archive(path, which)) is not None, "ambiguous or missing archives are refused")
                return
            arc, mod = inspector.open_archive(path, which)
            env.prove(arc.name() == ok, "the archive of this name")
            env.prove(arc.r.v == v, "content")
            env.observe("v", arc.r.v)
    return scenario


def build():
    B = ("any of 7 files and directories (two levels) with contents of 0..3 arbitrary bytes; tar archives of up to 4 members, each of any kind, "
         "at any offset below 6, of up to 4 of 12 arbitrary bytes; writes of up to 3 chunks to two resources")
    hs = []
    hs.append(PyHarness("files/flat", files(["a", "b", "sub"], (0, 1, 3)), F, B, validate=20))
    hs.append(PyHarness("files/nested", files(["a", "sub", "sub/a", "sub/sub", "sub/sub/a"], (2,)), F, B, validate=20))
    hs.append(PyHarness("files/empty", files(["a", "sub", "sub/a", "sub/b"], (0, 1)), F, B, validate=20))
    kinds = ["file", "old", "contiguous", "dir", "link", "fifo", "sparse", "pax-sparse"]
    hs.append(PyHarness("tar/kinds", tars([["a"], ["b"]], kinds), F, B, validate=12, weight=5))
    hs.append(PyHarness("tar/names", tars([["a", "./a"], ["b", "./b", "a", "./a", "ba", "a/b", "..a"]], ["file"]), F, B, validate=12, weight=5))
    hs.append(PyHarness("tar/dirs", tars([["sub", "./sub", ".", ".sub"], ["sub/a", "./sub/a", "sub/suba"], ["a"]], ["file"]), F, B, validate=12, weight=5))
    hs.append(PyHarness("tar/nested", tars([["sub"], ["sub/sub", "./sub/sub"], ["sub/sub/a", "./sub/sub/a", "sub/sub"]], ["file"]), F, B, validate=12, weight=5))
    hs.append(PyHarness("tar/implied", tars([["sub/a", "./sub/a"], ["sub/sub/a", "./sub/sub/a", None]], ["file"]), F, B, validate=12, weight=5))
    hs.append(PyHarness("tar/top", tars([["top/sub", "./top/sub"], ["top/a", "a", "top/sub/a", "./top/a"]], ["file"], top="top"), F, B, validate=12, weight=5))
    for ch in ((0,), (3,), (2, 0, 1)):
        for ex in (False, True):
            hs.append(PyHarness("write/%s/%s" % ("-".join(map(str, ch)), ex), writing(ch, ex), F, B, validate=8))
    hs.append(PyHarness("inspect/dir", inspected(False), F, B, validate=20))
    return hs


if __name__ == "__main__":
    main("P08", build, ["the operating system (os, open, mmap) and the parser of tar headers (the standard library's tarfile) are stand-ins "
                        "in the symbolic runs; the replayed witnesses use real directories and real tar archives"],
         ["links, devices and names with '..'", "concurrent changes of files", "compressed archives"])
