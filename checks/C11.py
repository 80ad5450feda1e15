"""C11: C++ storages of directories, tar archives and memory."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *
import fsmodel, races
from fsmodel import DIR, World, pick
from C08 import block, size_field

BODY = '''
#include <boost/filesystem.hpp>
#include <boost/interprocess/file_mapping.hpp>
#include <boost/interprocess/mapped_region.hpp>
#include <unistd.h>
#include <flatdata/FileResourceStorage.h>
#include <flatdata/TarArchiveResourceStorage.h>
#include <flatdata/MemoryResourceStorage.h>
using namespace flatdata;
typedef ResourceStorage St;
struct Access : St { static auto read() { return &Access::read_resource; } static auto stream() { return &Access::create_output_stream; } };
API cd(const char* p) { return chdir(p) == 0; }
API fcreate(const char* p) { return (U)static_cast<St*>(FileResourceStorage::create(p).release()); }
API fopen_(const char* p) { return (U)static_cast<St*>(FileResourceStorage::open(p).release()); }
API tcreate(const char* p, const char* sub) { return (U)static_cast<St*>(TarArchiveResourceStorage::create(p, sub).release()); }
API mcreate() { return (U)static_cast<St*>(MemoryResourceStorage::create().release()); }
API drop_(St* s) { delete s; return 0; }
API dir(St* s, const char* k) { return (U)s->directory(k).release(); }
API mkdir_(St* s, const char* k) { return (U)s->create_directory(k).release(); }
API has(St* s, const char* k) { return s->exists(k); }
API raw(St* s, const char* k, U* out) { auto r = (s->*Access::read())(k); out[0] = (U)r.data(); out[1] = r.size_in_bytes(); return (bool)r; }
API schema_of(St* s, const char* k, U* out) { auto r = s->read_schema(k); out[0] = (U)r.data(); out[1] = r.size_in_bytes(); return (bool)r; }
API put(St* s, const char* k, P p, U n, P q, U m) { auto o = (s->*Access::stream())(k); if (!o) return 0;
  o->write((const char*)p, n); o->write((const char*)q, m); o->flush(); return (bool)*o; }
API write_raw(St* s, const char* k, const char* sc, P p, U n) { return s->write<MemoryDescriptor>(k, sc, MemoryDescriptor(p, n)); }
API read_raw(St* s, const char* k, const char* sc, U* out) { auto r = s->read<MemoryDescriptor>(k, sc);
  if (!r || !*r) return 0; out[0] = (U)r->data(); out[1] = r->size_in_bytes(); return 1; }
typedef ExternalVector<n::S> E;
API ext(St* s, const char* k, const char* sc) { return (U)new E(s->create_external_vector<n::S>(k, sc)); }
API ext_push(E* e, U v) { e->grow().a = (uint8_t)v; return 0; }
API ext_close(E* e, U* out) { auto r = e->close(); if (!r) return 0; out[0] = (U)r.data(); out[1] = r.size(); return 1; }

struct Op { U kind; St* s; const char* k; U out[2]; };
static void perform(Op* o) {
  switch (o->kind) {
    case 0: o->out[1] = raw(o->s, o->k, o->out); break;
    case 1: o->out[1] = has(o->s, o->k); break;
    case 2: o->out[1] = put(o->s, o->k, (P)"x", 1, (P)"y", 1); break;
    case 3: o->out[1] = write_raw(o->s, o->k, "SC", (P)"x", 1); break;
    case 4: o->out[1] = dir(o->s, o->k) != 0; break;
    case 5: o->out[1] = mkdir_(o->s, o->k) != 0; break;
    case 6: o->out[1] = read_raw(o->s, o->k, "SC", o->out); break;
    case 7: static_cast<MemoryResourceStorage*>(o->s)->assign_value(o->k, MemoryDescriptor((P)"x", 1)); break;
  } }
API op_new(U kind, St* s, const char* k) { return (U)new Op{kind, s, k, {0, 0}}; }
API op_run(Op* o) { perform(o); return o->out[1]; }
#ifdef THREADS
#include <thread>
#include <atomic>
API op_both(Op* a, Op* b, U mode) { std::atomic<int> ready{0};      // mode 0: b after a, without synchronisation; 1: at once
  const auto R = std::memory_order_relaxed;
  std::thread x([&] { if (mode) { ready.fetch_add(1, R); while (ready.load(R) < 2) {} } perform(a); if (!mode) ready.store(1, R); });
  std::thread y([&] { if (mode) { ready.fetch_add(1, R); while (ready.load(R) < 2) {} } else while (!ready.load(R)) usleep(1000); perform(b); });
  x.join(); y.join(); return 0; }
#endif
'''
NODES = ["a", "b", "sub", "sub/a", "sub/b"]


def u64(c, p, i):
    b = c.read(p + 8 * i, 8)
    v = 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def same(env, a, b):
    return env.all(*[x == y for x, y in zip(a, b)])


def Z(c, s):
    return c.buf((s.encode() if isinstance(s, str) else s) + b"\0")


def D(c, b):
    return c.buf(b if len(b) else b"\0"), len(b)


def session(env, nodes):
    c = UNIT.session(env)
    w = World(env, c, nodes)
    if not env.symbolic:
        c.call("cd", Z(c, w.root))
    else:
        c.m.cwd = w.root
    return c, w


def check_read(env, c, h, key, want, what):
    """reading key from the storage h gives the bytes want (None: nothing)"""
    out = c.buf(16)
    ok = c.call("raw", h, Z(c, key), out)
    if want is None or not len(want):
        env.prove(ok == 0 or u64(c, out, 1) == 0, what + ": nothing is found")
        return None
    env.prove(ok == 1, what + ": found")
    env.prove(u64(c, out, 1) == len(want), what + ": size")
    env.prove(same(env, c.read(u64(c, out, 0), len(want)), list(want)), what + ": content")
    return u64(c, out, 0)


def nodes_of(env, names, sizes):
    nodes = {}
    for n in names:
        if "/" in n and nodes.get(n.rsplit("/", 1)[0]) is not DIR:
            continue
        k = pick(env, "kind_" + n, ["none", "file", "dir"] if n.endswith("sub") else ["none", "file"])
        if k == "dir":
            nodes[n] = DIR
        elif k == "file":
            size = pick(env, "size_" + n, sizes)
            nodes[n] = env.bytes("c_" + n, size) if size else b""
    return nodes


def reading(names, sizes):
    def scenario(env):
        nodes = nodes_of(env, names, sizes)
        c, w = session(env, nodes)
        try:
            h = c.call("fopen_", Z(c, w.root))
            env.prove(h != 0, "existing directories open")
            s = c.call("dir", h, Z(c, "sub"))
            env.prove((s != 0) == (nodes.get("sub") is DIR), "subdirectories open exactly if they are directories")
            env.prove(c.call("has", h, Z(c, "sub")) == ("sub" in nodes), "existence of sub")
            first = {}
            for n in ("a", "b"):
                for at, key in ((h, n), (h, "sub/" + n), (s, n)):
                    if at == 0:
                        continue
                    p = "sub/" + n if at == s else key
                    want = nodes.get(p)
                    env.prove(c.call("has", at, Z(c, key)) == (want is not None), p + ": existence")
                    first[at, key] = p, check_read(env, c, at, key, want, p)
            for (at, key), (p, adr) in first.items():        # data stays where it was
                if adr is not None:
                    check_read(env, c, at, key, nodes[p], p + " again")
                    env.prove(same(env, c.read(adr, len(nodes[p])), list(nodes[p])), p + ": earlier views stay valid")
            env.prove(w.names() == sorted(nodes), "reading changes nothing")
        finally:
            w.close()
    return scenario


# path of a storage -> directory of the world it denotes ("" the working directory, None: cannot be opened)
PATHS = {"%": "", "%/": "", "%//": "", "%/.": "", "%/sub": "sub", "%/sub/": "sub", "%/sub/.": "sub", "%/sub/..": "", ".": "", "./": "", "sub": "sub",
         "./sub": "sub", "sub/": "sub", "%/file": None, "%/file/": None, "%/file/x": None, "%/none/deep": None, "none/deep": None}
NEW = {"%/new": "new", "%/new/": "new", "new": "new", "./new": "new", "sub/new": "sub/new"}


def paths(p, create):
    def scenario(env):
        x = env.bytes("x", 2)
        nodes = {"sub": DIR, "file": b"f", "r": env.bytes("r", 2), "sub/r": env.bytes("s", 2)}
        c, w = session(env, nodes)
        try:
            at = {**PATHS, **NEW}[p] if create else PATHS.get(p)
            h = c.call("fcreate" if create else "fopen_", Z(c, p.replace("%", w.root)))
            env.prove((h != 0) == (at is not None), "opens exactly if it is or can become a directory")
            after = dict(nodes)
            if create and p in NEW:
                after[at] = DIR
            env.prove(w.names() == sorted(after), "nothing else is created")
            if h == 0:
                return
            pre = at + "/" if at else ""
            check_read(env, c, h, "r", nodes.get(pre + "r"), "resource")
            env.prove(c.call("has", h, Z(c, "r")) == (pre + "r" in nodes), "existence")
            env.prove(c.call("put", h, Z(c, "q"), *D(c, x), *D(c, b"")) == 1, "writing")
            after[pre + "q"] = x
            env.prove(w.names() == sorted(after), "the resource is stored in this directory")
            env.prove(same(env, w.content(pre + "q"), list(x)), "content of the file")
            check_read(env, c, h, "q", x, "written resource")
        finally:
            w.close()
    return scenario


def nowhere(create):
    """an empty path denotes no directory, or the working directory; it must never denote the root of the file system"""
    def scenario(env):
        nodes = {"r": env.bytes("r", 2)}
        c, w = session(env, nodes)
        try:
            h = c.call("fcreate" if create else "fopen_", Z(c, ""))
            env.observe("opened", h != 0)
            if h != 0:
                top = w.root.split("/")[1]
                env.prove(c.call("has", h, Z(c, top)) == 0, "not the root directory")
                check_read(env, c, h, "r", nodes["r"], "resource of the working directory")
            env.prove(w.names() == ["r"], "nothing is created")
        finally:
            w.close()
    return scenario


def writing(before, keys, sizes):
    def scenario(env):
        c, w = session(env, dict(before))
        try:
            h = c.call("fopen_", Z(c, w.root))
            state, s = dict(before), 0
            if any(k.startswith("out/") for k in keys):
                s = c.call("mkdir_", h, Z(c, "out"))
                env.prove((s != 0) == (before.get("out") in (None, DIR)), "directories are created unless a file is in the way")
                if s == 0:
                    env.prove(w.names() == sorted(state), "nothing is created")
                    return
                state["out"] = DIR
            for i, key in enumerate(keys):
                at, n = (s, key[4:]) if key.startswith("out/") else (h, key)
                x, y = env.bytes("x%d" % i, sizes[0]) if sizes[0] else b"", env.bytes("y%d" % i, sizes[1]) if sizes[1] else b""
                ok = c.call("put", at, Z(c, n), *D(c, x), *D(c, y))
                up = key.rsplit("/", 1)[0] if "/" in key else None
                fine = state.get(key) is not DIR and (up is None or state.get(up) is DIR)
                env.prove(ok == fine, key + ": writing succeeds unless the path cannot be a file")
                if fine:
                    state[key] = list(x) + list(y)
            env.prove(w.names() == sorted(state), "exactly these files exist")
            for p, v in state.items():
                got = w.content(p)
                if v is DIR:
                    env.prove(got is DIR, "directory")
                else:
                    env.prove(got is not DIR and len(got) == len(v), p + ": size of the file")
                    if len(v):
                        env.prove(same(env, got, list(v)), p + ": content of the file")
            for key in keys:
                at, n = (s, key[4:]) if key.startswith("out/") else (h, key)
                if state.get(key) is not DIR:
                    check_read(env, c, at, n, state.get(key), key)
        finally:
            w.close()
    return scenario


def framing(size, kind, sub):
    """what write() stores is read by another storage of the same directory"""
    def scenario(env):
        c, w = session(env, {})
        try:
            h, pre = c.call("fcreate", Z(c, w.root + "/ar")), "ar/"
            if sub:
                h, pre = c.call("mkdir_", h, Z(c, "in")), "ar/in/"
            d = env.bytes("data", size) if size else b""
            out = c.buf(16)
            if kind == "raw":
                env.prove(c.call("write_raw", h, Z(c, "r"), Z(c, "SC"), *D(c, d)) == 1, "writing succeeds")
            else:
                e = c.call("ext", h, Z(c, "r"), Z(c, "SC"))
                for i in range(size):
                    c.call("ext_push", e, d[i])
                env.prove(c.call("ext_close", e, out) == 1, "closing succeeds")
                env.prove(u64(c, out, 1) == size, "size of the closed vector")
                if size:
                    env.prove(same(env, c.read(u64(c, out, 0), size), list(d)), "content of the closed vector")
            want = le(size, 8) + list(d) + [0] * 8
            got = w.content(pre + "r")
            env.prove(got is not None and len(got) == len(want), "file size")
            env.prove(same(env, got, want), "file content")
            env.prove(w.content(pre + "r.schema") == [83, 67], "schema file")
            env.prove(w.names() == sorted([pre[:-1], pre + "r", pre + "r.schema"] + (["ar"] if sub else [])), "nothing else is stored")
            h2 = c.call("fopen_", Z(c, w.root + "/" + pre[:-1]))
            env.prove(c.call("read_raw", h2, Z(c, "r"), Z(c, "SC"), out) == 1, "opens")
            env.prove(u64(c, out, 1) == size, "size")
            if size:
                env.prove(same(env, c.read(u64(c, out, 0), size), list(d)), "content")
            env.prove(c.call("read_raw", h2, Z(c, "r"), Z(c, "SD"), out) == 0, "another schema is refused")
            env.prove(c.call("schema_of", h2, Z(c, "r"), out) == 1 and u64(c, out, 1) == 2, "stored schema")
        finally:
            w.close()
    return scenario


def failing(what):
    """resources which cannot be stored: writing reports it"""
    def scenario(env):
        nodes = {"r": DIR} if what == "data" else {"r.schema": DIR} if what == "schema" else {"x.tar": block() + [0] * 512}
        c, w = session(env, nodes)
        try:
            h = c.call("tcreate", Z(c, w.root + "/x.tar"), Z(c, "")) if what.startswith("tar") else c.call("fopen_", Z(c, w.root))
            env.prove(h != 0, "the storage opens")
            d = env.bytes("data", 2)
            out = c.buf(16)
            if what == "tar vector":
                e = c.call("ext", h, Z(c, "r"), Z(c, "SC"))
                env.prove(c.call("ext_close", e, out) == 0, "closing fails")
            elif what == "tar put":
                env.prove(c.call("put", h, Z(c, "r"), *D(c, d), *D(c, b"")) == 0, "writing fails")
            else:
                env.prove(c.call("write_raw", h, Z(c, "r"), Z(c, "SC"), *D(c, d)) == 0, "writing fails")
            env.prove(c.call("read_raw", h, Z(c, "r"), Z(c, "SC"), out) == 0, "nothing is stored")
        finally:
            w.close()
    return scenario


def archive_of(members, symbolic):
    """bytes of a tar archive: members (name, kind, data)"""
    out = []
    for name, kind, data in members:
        out += block(name.encode(), size_field(0 if kind == "dir" else len(data)), 53 if kind == "dir" else 48)
        if kind == "file":
            out += list(data) + [0] * (-len(data) % 512)
    return out + [0] * 1024


def tars(names, sizes, sub, truncated=False):
    """members of these names, kinds and sizes with arbitrary contents"""
    def scenario(env):
        members, want = [], {}
        for i, options in enumerate(names):
            name = pick(env, "name%d" % i, options)
            if name is None:
                continue
            data = env.bytes("d%d" % i, sizes[i]) if sizes[i] else b""
            kind = "dir" if name.endswith("/") else "file"
            members.append((name, kind, data))
            key = name[2:] if name.startswith("./") else name
            if kind == "file":
                want[key] = data
        cells = archive_of(members, env.symbolic)
        if truncated:       # within the padding behind the last member, or one block of zeros
            cells = cells[:-1024]
        c, w = session(env, {"x.tar": bytes(cells) if not env.symbolic else cells})
        try:
            h = c.call("tcreate", Z(c, w.root + "/x.tar"), Z(c, sub))
            env.prove(h != 0, "the archive opens")
            s = c.call("dir", h, Z(c, "sub"))
            env.prove(s != 0, "subdirectory")
            pre = sub + "/" if sub else ""
            for at, p in ((h, "a"), (h, "b"), (h, "sub/a"), (s, "a"), (h, "sub"), (h, "./a"), (h, "")) + tuple(
                    (h, x) for x in (".a", "..a", ".b", "a.b", "...") if any(x in o or "./" + x in o for o in names)):
                full = pre + ("sub/" if at == s else "") + p
                data = want.get(full)
                env.prove(c.call("has", at, Z(c, p)) == (data is not None), full + ": existence")
                if data is None:
                    check_read(env, c, at, p, None, full)
                else:
                    out = c.buf(16)
                    env.prove(c.call("raw", at, Z(c, p), out) == (1 if len(data) else c.call("raw", at, Z(c, p), out)), full + ": found")
                    env.prove(u64(c, out, 1) == len(data), full + ": size")
                    if len(data):
                        env.prove(same(env, c.read(u64(c, out, 0), len(data)), list(data)), full + ": content")
        finally:
            w.close()
    return scenario


def broken(kind):
    """files which are no archives"""
    def scenario(env):
        junk = env.bytes("junk", 4)
        cells = block(b"a", size_field(3)) + list(junk) + [0] * 508 + [0] * 512
        nodes = {"d": DIR, "e": b""}
        if kind == "short":
            cells = cells[:-1]
        elif kind == "checksum":
            cells[0] = 98
        elif kind == "size":
            cells = block(b"a", b"0000000000x\0") + [0] * 512
        nodes["x.tar"] = bytes(cells) if not env.symbolic else cells
        name = {"missing": "none", "directory": "d", "empty": "e"}.get(kind, "x.tar")
        c, w = session(env, nodes)
        try:
            h = c.call("tcreate", Z(c, w.root + "/" + name), Z(c, ""))
            if kind in ("short", "checksum", "size"):
                env.prove(h == 0, "damaged archives are refused")
            if h != 0:
                env.prove(c.call("has", h, Z(c, "a")) == 0, "no resource")
                check_read(env, c, h, "a", None, "a")
        finally:
            w.close()
    return scenario


OPS = {"read": 0, "exists": 1, "stream": 2, "write": 3, "dir": 4, "mkdir": 5, "open": 6, "assign": 7}


def together(kind, first, second):
    """two threads use storages of the same data; (operation, handle, key) each"""
    def scenario(env):
        r = env.bytes("r", 9)
        for mode in ((0, 2) if env.symbolic else (0, 2, 1)):     # either order; natively also at once
            run(env, r, mode)

    def run(env, r, mode):
        nodes = {"sub": DIR, "r": r}
        for k in ("a", "b", "sub/a", "sub/b"):
            nodes[k] = le(2, 8) + [120, 121] + [0] * 8
            nodes[k + ".schema"] = b"SC"
        members = [(k, "file", v) for k, v in sorted(nodes.items()) if v is not DIR]
        disk = nodes if kind == "file" else {"x.tar": archive_of(members, env.symbolic)} if kind == "tar" else {}
        if not env.symbolic:
            disk = {k: v if v is DIR else bytes(v) for k, v in disk.items()}
        c = THREADS.session(env)
        w = World(env, c, disk)
        if env.symbolic and "@__libc_single_threaded" in c.m.mod.globals:
            c.m.store(races.ity(8), 0, c.m.global_addr("@__libc_single_threaded"))
        try:
            if kind == "file":
                h = c.call("fopen_", Z(c, w.root))
            elif kind == "tar":
                h = c.call("tcreate", Z(c, w.root + "/x.tar"), Z(c, ""))
            else:
                h = c.call("mcreate")
                s = c.call("mkdir_", h, Z(c, "sub"))
                for k, v in nodes.items():
                    if v is not DIR:
                        c.call("put", s if "/" in k else h, Z(c, k.split("/")[-1]), *D(c, v), *D(c, b""))
            s = c.call("dir", h, Z(c, "sub"))
            env.prove(h != 0 and s != 0, "storages open")
            ops = [c.call("op_new", OPS[o], s if at else h, Z(c, k)) for o, at, k in ((second, first) if mode == 2 else (first, second))]
            if env.symbolic:
                recs = []
                for op in ops:
                    r = races.Recorder(c.m)
                    r.start()
                    try:
                        c.call("op_run", op)
                    finally:
                        recs.append(r.stop())
                # only what existed before both of them can be shared
                why = races.conflict(*recs)
                env.prove(why is None, "no data race: %s" % why if why else "no data race")
            else:
                c.call("op_both", *ops, mode & 1)
                env.prove(True, "no data race")
            for o, at, k in (first, second):        # both took effect
                data = b"xy" if o == "stream" else b"x" if o == "assign" else None
                if o == "write" and kind != "tar":
                    data = le(1, 8) + [120] + [0] * 8
                if kind == "tar" and o == "stream":
                    data = None
                if data is not None:
                    key = k if o != "assign" else k
                    check_read(env, c, h if o == "assign" else (s if at else h), key, data, k + " afterwards")
                if o in ("read", "open"):
                    check_read(env, c, s if at else h, k, nodes[("sub/" if at else "") + k], k + " afterwards")
        finally:
            w.close()
    return scenario


def pairs():
    """pairs of operations: the second one on the same or on another handle"""
    A = [("read", "a"), ("read", "r"), ("exists", "a"), ("open", "b"), ("stream", "new"), ("write", "new2"), ("dir", "sub"), ("mkdir", "sub2")]
    B = [("read", "a"), ("exists", "b"), ("open", "a"), ("stream", "other"), ("write", "other2"), ("dir", "x"), ("mkdir", "y")]
    for kind in ("file", "tar", "memory"):
        for o1, k1 in A + ([("assign", "z")] if kind == "memory" else []):
            for o2, k2 in B + ([("assign", "zz")] if kind == "memory" else []):
                for at in (0, 1):
                    if kind == "tar" and {o1, o2} & {"stream", "write", "mkdir"}:
                        continue
                    if o2 == "assign" and at:
                        continue
                    yield kind, (o1, 0, k1), (o2, at, k2)


F = ["FileResourceStorage, MemoryMappedFileStorage, TarArchiveResourceStorage, MemoryMappedTarFileStorage (LLVM IR of the headers): "
     "create, open, directory, create_directory, exists, read_resource, create_output_stream; ResourceStorage::write, read; ExternalVector"]
UNIT = THREADS = None


def build():
    global UNIT, THREADS
    def unit(name, **kw):
        u = cpp_unit("C11", name, "namespace n { struct S { a : u8; } }", BODY, sources=["ResourceStorage.cpp", "TarReader.cpp"],
                    ir_flags=["-I" + os.path.join(VERIF, "engine", "cppstub")], **kw)
        u.intercepts.update(fsmodel.FS)
        races.install(u)
        return u
    tsan = os.path.join(VERIF, "build", "C11_tsan")
    UNIT, THREADS = unit("storages"), unit("threads", san=["-fsanitize=thread"] if races.tsan_works(tsan) else SAN, native_flags=["-DTHREADS", "-g1"])
    build_units([UNIT, THREADS])
    hs = []

    def add(name, sc, B, **kw):
        hs.append(PyHarness(name, sc, F, B, validate=kw.pop("validate", 6), **kw))
    add("read/flat", reading(["a", "b"], (0, 1, 3)), "any of the files a and b with 0, 1 or 3 arbitrary bytes")
    add("read/sub", reading(["a", "sub", "sub/a", "sub/b"], (2,)), "any of the files a, sub, sub/a, sub/b")
    for i, p in enumerate(PATHS):
        add("open/%d" % i, paths(p, False), "the path %s (%% is a directory with a directory sub and a file)" % p)
        add("create/%d" % i, paths(p, True), "the path %s" % p)
    for i, p in enumerate(NEW):
        add("create/new%d" % i, paths(p, True), "the path %s" % p)
        add("open/new%d" % i, paths(p, False), "the path %s" % p)
    add("open/nowhere", nowhere(False), "the empty path")
    add("create/nowhere", nowhere(True), "the empty path")
    for i, (before, keys) in enumerate((({}, ["r"]), ({"r": b"old content"}, ["r"]), ({"a": b"stay"}, ["r", "r"]), ({}, ["out/r"]),
                                        ({"out": DIR, "out/r": b"1234567890", "out/s": b"stay"}, ["out/r", "q"]), ({"out": b"x"}, ["out/r"]),
                                        ({"r": DIR}, ["r", "q"]), ({"a": b"1"}, ["no/r", "a/r"]))):
        for sizes in ((0, 0), (3, 2)) if TIER == "quick" else ((0, 0), (3, 2), (9, 0), (0, 4)):
            add("write/%d/%d-%d" % ((i,) + sizes), writing(before, keys, sizes), "writes of arbitrary bytes over %s" % sorted(before))
    for n in (0, 1, 4):
        for kind in ("raw", "vector"):
            for sub in (0, 1):
                add("framed/%s/%d/%d" % (kind, n, sub), framing(n, kind, sub), "resources of %d arbitrary bytes" % n)
    for k in ("data", "schema", "tar", "tar vector", "tar put"):
        add("failing/" + k.replace(" ", "-"), failing(k), "resources of two arbitrary bytes")
    A = ["a", "./a", "sub/a", "./sub/a", "sub/sub/a"]
    for i, first in enumerate(A):
        for sub in ("", "sub"):
            add("tar/%d%s" % (i, sub and "-" + sub), tars([[first], ["a", "./b", "./sub/a", "sub/", "ab", None]], (3, 2), sub), "two members of these names", weight=3)
    add("tar/dots", tars([[".a", "..a", "./.a", "a.b", "..."], ["a", "./..a", None]], (3, 2), ""), "names with dots", weight=3)
    add("tar/empty", tars([["a", "sub/a"], ["b", "a"]], (0, 1), ""), "empty members")
    add("tar/three", tars([["a"], ["a", "b"], ["a", "b", None]], (1, 2, 3), ""), "repeated names", weight=3)
    add("tar/full", tars([["b"], ["a"]], (512, 513), ""), "members of whole blocks")
    add("tar/unterminated", tars([["b"], ["a"]], (5, 1), "", truncated=True), "archives without the zero blocks at the end")
    for kind, x, y in pairs():
        add("threads/%s/%s-%s/%s-%s%s" % (kind, x[0], x[2], y[0], y[2], "-sub" if y[1] else ""), together(kind, x, y),
            "two threads using %s storages of the same data, all interleavings of %s and %s" % (kind, x[0], y[0]), validate=1)
    for k in ("short", "checksum", "size", "missing", "directory", "empty"):
        add("broken/" + k, broken(k), "damaged and missing archives")
    return hs


if __name__ == "__main__":
    main("C11", build, ["clang 18 -O1 IR of the headers is the code under test; sanitizer builds replay", "the operating system's file calls, std::ofstream, boost::filesystem and boost::interprocess are modelled "
                                     "(engine/fsmodel.py, engine/cppstub) in the symbolic runs; replays use the real ones on real directories"],
         ["failures of the operating system", "links and special files", "files changed while they are mapped"])
