"""R07: Rust storages of directories and tar archives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from rustlib import *
import fsmodel
from llsym import ity
from fsmodel import DIR, World, pick

BODY = '''
use std::sync::Arc; use std::io::Write;
type H = StorageHandle;
unsafe fn out(o: *mut u64, v: &[u64]) -> u64 { for i in 0..v.len() { *o.add(i) = v[i]; } 1 }
unsafe fn text<'a>(p: *const u8, n: u64) -> &'a str { std::str::from_utf8_unchecked(bytes(p, n)) }
unsafe fn keep(h: H) -> u64 { Box::into_raw(Box::new(h)) as u64 }
unsafe fn get(h: *const H, k: &str, o: *mut u64) -> u64 { match (**h).read_resource(k) { Ok(r) => out(o, &[r.as_ptr() as u64, r.len() as u64]), Err(_) => 0 } }
api!(files(p: *const u8, n: u64) { keep(FileResourceStorage::new(text(p, n))) });
api!(subdir(h: *const H, k: *const u8, kl: u64) { keep((**h).subdir(text(k, kl))) });
api!(drop_handle(h: *mut H) { drop(Box::from_raw(h)); 0 });
api!(raw(h: *const H, k: *const u8, kl: u64, o: *mut u64) { get(h, text(k, kl), o) });
api!(has(h: *const H, k: *const u8, kl: u64) { (**h).exists(text(k, kl)) as u64 });
api!(create(h: *const H, k: *const u8, kl: u64, p: *const u8, n: u64, q: *const u8, m: u64) { match (**h).create_output_stream(text(k, kl)) {
  Ok(mut w) => (w.write_all(bytes(p, n)).is_ok() && w.write_all(bytes(q, m)).is_ok() && w.flush().is_ok()) as u64, Err(_) => 0 } });
api!(written(h: *const H, k: *const u8, kl: u64, t: *const u8, tl: u64, p: *const u8, n: u64) { match (**h).write(text(k, kl), text(t, tl), bytes(p, n)) {
  Ok(()) => 1, Err(_) => 0 } });
api!(opened(h: *const H, k: *const u8, kl: u64, t: *const u8, tl: u64, o: *mut u64) { match (**h).read(text(k, kl), text(t, tl)) {
  Ok(r) => out(o, &[r.as_ptr() as u64, r.len() as u64]), Err(_) => 0 } });

// another thread reads while a file is being mapped
struct Job { h: u64, k: u64, kl: u64, o: u64 }
static mut JOB: Option<Job> = None;
static mut DONE: u64 = 2;
static mut THREAD: Option<std::thread::JoinHandle<()>> = None;
#[no_mangle] #[inline(never)] pub unsafe extern "C-unwind" fn harness_other() -> u64 { let j = (*std::ptr::addr_of!(JOB)).as_ref().unwrap();
  DONE = get(j.h as *const H, text(j.k as *const u8, j.kl), j.o as *mut u64); DONE }
#[cfg(symbolic)] extern "C-unwind" { fn harness_preempt(); }
#[cfg(symbolic)] extern "C-unwind" fn hook() { unsafe { harness_preempt() } }
#[cfg(not(symbolic))] extern "C-unwind" fn hook() { unsafe {
  THREAD = Some(std::thread::spawn(|| unsafe { harness_other(); }));
  for _ in 0..500 { if DONE != 2 { break; } std::thread::sleep(std::time::Duration::from_millis(4)); } } }
api!(arm(h: u64, k: u64, kl: u64, o: u64) { JOB = Some(Job { h, k, kl, o }); DONE = 2; memmap2::PREEMPT = Some(hook); 0 });
api!(finish() { memmap2::PREEMPT = None; #[cfg(not(symbolic))] { if let Some(t) = (*std::ptr::addr_of_mut!(THREAD)).take() { let _ = t.join(); } }
  if DONE == 2 { harness_other(); } DONE });

api!(memory(p: *const u8, n: u64) { keep(MemoryResourceStorage::new(text(p, n))) });
unsafe fn perform(op: u64, h: *const H, k: &str, o: *mut u64) -> u64 { match op {
  0 => get(h, k, o), 1 => (**h).exists(k) as u64, 2 => (**h).write(k, "SC", b"xy").is_ok() as u64,
  3 => (**h).create_output_stream(k).is_ok() as u64, 4 => { let s = (**h).subdir("sub"); s.exists(k) as u64 }, _ => { struct Null; impl std::fmt::Write for Null { fn write_str(&mut self, s: &str) -> std::fmt::Result { Ok(()) } }
    use std::fmt::Write; write!(Null, "{:?}", *h).is_ok() as u64 } } }
api!(act(op: u64, h: *const H, k: *const u8, kl: u64, o: *mut u64) { perform(op, h, text(k, kl), o) });
// native only: two threads perform operations on a new storage again and again
#[cfg(not(symbolic))] api!(stress(kind: u64, p: *const u8, n: u64, ops: u64, k: *const u8, kl: u64, k2: *const u8, k2l: u64) {
  let (op1, op2) = (ops / 8, ops % 8); let reps = if op1 + op2 == 0 { 1 } else { 20 };
  let (k, k2, dir) = (text(k, kl).to_string(), text(k2, k2l).to_string(), text(p, n).to_string());
  let done = Arc::new(std::sync::atomic::AtomicU64::new(0)); let d2 = done.clone();
  use std::sync::atomic::Ordering::SeqCst;
  std::thread::spawn(move || { let mut bad = 0;
    let end = std::time::Instant::now() + std::time::Duration::from_millis(1500);
    while bad == 0 && std::time::Instant::now() < end {
      let h: H = if kind == 0 { FileResourceStorage::new(dir.clone()) } else { let m = MemoryResourceStorage::new("/m");
        m.write("a", "SC", &vec![1; 1 << 20]).unwrap(); m.write("b", "SC", &vec![4; 1 << 20]).unwrap(); m };
      let at = Arc::new(std::sync::atomic::AtomicU64::new(0)); let (a2, h2, q) = (at.clone(), h.clone(), k2.clone());
      let t = std::thread::spawn(move || { let mut o = [0u64; 2]; a2.fetch_add(1, SeqCst); while a2.load(SeqCst) < 2 {}
        unsafe { let mut r = 0; for _ in 0..reps { r = perform(op2, &h2, &q, o.as_mut_ptr()); } (r, o) } });
      let mut o = [0u64; 2]; at.fetch_add(1, SeqCst); while at.load(SeqCst) < 2 {}
      let r = unsafe { let mut r = 0; for _ in 0..reps { r = perform(op1, &h, &k, o.as_mut_ptr()); } r };
      let (s, p) = t.join().unwrap();
      if op1 == 0 && op2 == 0 && k == k2 && r == 1 && s == 1 && o != p { bad = 1; }
    }
    d2.store(1 + bad, SeqCst); });
  let end = std::time::Instant::now() + std::time::Duration::from_millis(15000);
  while done.load(SeqCst) == 0 && std::time::Instant::now() < end { std::thread::sleep(std::time::Duration::from_millis(5)); }
  done.load(SeqCst) });

api!(member(k: *const u8, kl: u64, offset: u64, size: u64, stored: u64, kind: u64) { (*std::ptr::addr_of_mut!(tar::MEMBERS)).push(
  tar::Member { name: bytes(k, kl).to_vec(), offset, size, stored, kind: kind as u8 }); 0 });
api!(reset(broken: u64) { (*std::ptr::addr_of_mut!(tar::MEMBERS)).clear(); tar::BROKEN = broken; 0 });
api!(archive(p: *const u8, n: u64) { match TarArchiveResourceStorage::new(text(p, n)) { Ok(s) => keep(s), Err(_) => 0 } });
'''


class Blocked(Exception):
    """the interrupting thread waits for a lock of the interrupted one"""


def _preempt(m, a, name):
    isolated(m, lambda: m.exec(m.mod.functions["@harness_other"].parse(), []))


def isolated(m, job):
    """the other thread runs here, unless it has to wait"""
    saved = [(o, list(o.cells), o.alive) for o in m.objs]
    fds = {k: (v.pos if v else None) for k, v in m.fds.items()}
    depth, globs = m.depth, set(m.gaddr)
    m.other = True
    try:
        job()
        return True
    except Blocked:
        m.depth = depth
        known = set()
        for o, cells, alive in saved:
            o.cells, o.alive = cells, alive
            known.add(id(o))
        for o in m.objs:
            if id(o) not in known:
                o.alive = False
        for n, v in list(m.gaddr.items()):     # globals first used by the other thread start anew
            if n not in globs and n in m.mod.globals:
                del m.gaddr[n]
        for k, pos in fds.items():
            if m.fds[k]:
                m.fds[k].pos = pos
    finally:
        m.other = False


def _wait(m, a, name):
    if getattr(m, "other", False):
        raise Blocked()
    m.bad("deadlock: waiting for a lock which is never released")


def _seed(m, a, name):
    m.store_bytes(a[0], [1] * m.fork_value(a[1], 64))
    return a[1]


def _no(m, a, name):
    return 0


def session(env, nodes):
    c = UNIT.session(env)
    return c, World(env, c, nodes)


def check_read(env, c, h, key, want, what):
    """reading key from the storage h gives the bytes want (None: nothing)"""
    out = c.buf(16)
    ok = c.call("raw", h, *K(c, key), out)
    if want is None:
        env.prove(ok == 0, what + ": nothing is found")
        return None
    env.prove(ok == 1, what + ": found")
    env.prove(u64(c, out, 1) == len(want), what + ": size")
    if len(want):
        env.prove(same(env, c.read(u64(c, out, 0), len(want)), list(want)), what + ": content")
    return u64(c, out, 0)


NODES = ["a", "b", "sub", "sub/a", "sub/b"]


def nodes_of(env, names, sizes):
    nodes = {}
    for n in names:
        if "/" in n and nodes.get(n.rsplit("/", 1)[0]) is not DIR:
            continue
        k = pick(env, "kind_" + n, ["none", "file", "dir"] if n.endswith("sub") else ["none", "file"])
        if k == "dir":
            nodes[n] = DIR
        elif k == "file":
            size = pick(env, "size_" + n, sizes)
            nodes[n] = env.bytes("c_" + n, size) if size else b""
    return nodes


def reading(names, sizes):
    def scenario(env):
        nodes = nodes_of(env, names, sizes)
        c, w = session(env, nodes)
        try:
            h = c.call("files", *K(c, w.root.encode()))
            s = c.call("subdir", h, *K(c, b"sub"))
            first = {}
            for n in ("a", "b"):
                for at, p in ((h, n), (s, "sub/" + n)):
                    want = nodes.get(p)
                    env.prove(c.call("has", at, *K(c, n.encode())) == (want is not None), p + ": existence")
                    first[p] = check_read(env, c, at, n.encode(), want, p)
            for p, adr in first.items():        # data stays where it was
                if adr is not None and len(nodes[p]):
                    check_read(env, c, s if "/" in p else h, p[-1:].encode(), nodes[p], p + " again")
                    env.prove(same(env, c.read(adr, len(nodes[p])), list(nodes[p])), p + ": earlier views stay valid")
        finally:
            w.close()
    return scenario


def writing(before, keys, sizes):
    def scenario(env):
        c, w = session(env, dict(before))
        try:
            h = c.call("files", *K(c, w.root.encode()))
            s = c.call("subdir", h, *K(c, b"out"))
            state = dict(before)
            for i, key in enumerate(keys):
                at, n = (s, key[4:]) if key.startswith("out/") else (h, key)
                x, y = env.bytes("x%d" % i, sizes[0]) if sizes[0] else b"", env.bytes("y%d" % i, sizes[1]) if sizes[1] else b""
                env.prove(c.call("create", at, *K(c, n.encode()), *K(c, x), *K(c, y)) == 1, "writing succeeds")
                state[key] = list(x) + list(y)
                if "/" in key:
                    state["out"] = DIR
            env.prove(w.names() == sorted(state), "exactly these files exist")
            for p, v in state.items():
                got = w.content(p)
                if v is DIR:
                    env.prove(got is DIR, "directory")
                else:
                    env.prove(got is not DIR and len(got) == len(v), p + ": size of the file")
                    if len(v):
                        env.prove(same(env, got, list(v)), p + ": content of the file")
            for key in keys:
                at, n = (s, key[4:]) if key.startswith("out/") else (h, key)
                check_read(env, c, at, n.encode(), state[key], key)
        finally:
            w.close()
    return scenario


def framing(size):
    """what write() stores is read by another storage of the same directory"""
    def scenario(env):
        c, w = session(env, {})
        try:
            h = c.call("files", *K(c, w.root.encode()))
            d = env.bytes("data", size) if size else b""
            env.prove(c.call("written", h, *K(c, b"r"), *K(c, b"S"), *K(c, d)) == 1, "writing succeeds")
            got = w.content("r")
            want = le(size, 8) + list(d) + [0] * 8
            env.prove(len(got) == len(want), "file size")
            env.prove(same(env, got, want), "file content")
            env.prove(w.content("r.schema") == [83], "schema file")
            h2 = c.call("files", *K(c, w.root.encode() + b"/"))
            out = c.buf(16)
            env.prove(c.call("opened", h2, *K(c, b"r"), *K(c, b"S"), out) == 1, "opens")
            env.prove(u64(c, out, 1) == size, "size")
            if size:
                env.prove(same(env, c.read(u64(c, out, 0), size), list(d)), "content")
            env.prove(c.call("opened", h2, *K(c, b"r"), *K(c, b"T"), out) == 0, "another schema is refused")
        finally:
            w.close()
    return scenario


def race(keys, again):
    """one thread reads a resource; while its file is being mapped another thread reads"""
    def scenario(env):
        mine, other = keys
        nodes = {"a": env.bytes("a", 3), "b": env.bytes("b", 2)}
        c, w = session(env, nodes)
        try:
            h = c.call("files", *K(c, w.root.encode()))
            if again:       # the other resource is already mapped
                check_read(env, c, h, again, nodes[again.decode()], "before")
            o1, o2 = c.buf(16), c.buf([0] * 16)
            c.call("arm", h, *K(c, other), o2)
            env.prove(c.call("raw", h, *K(c, mine), o1) == 1, "the first thread reads")
            env.prove(c.call("finish") == (1 if other.decode() in nodes else 0), "the second thread reads")
            for k, o in ((mine, o1), (other, o2)):
                if k.decode() in nodes:
                    n = len(nodes[k.decode()])
                    env.prove(u64(c, o, 1) == n, "size")
                    env.prove(same(env, c.read(u64(c, o, 0), n), list(nodes[k.decode()])), "data handed out to both threads is valid")
        finally:
            w.close()
    return scenario


OPS = ("read", "exists", "write", "stream", "subdir", "debug")


class Locks:
    """locks held, and which were taken while others were held; std's mutexes are words going from 0 to 1 and back"""

    def __init__(self, m):
        self.m, self.held, self.order = m, [], set()

    def __call__(self, adr, expected, new):
        adr = self.m.addr(adr)
        if expected is not None and not (isinstance(expected, int) and isinstance(new, int)):
            return
        if expected == 0 and new == 1 and self.m.load(ity(32), adr) == 0:
            self.order |= {(h, adr) for h in self.held if h != adr}
            self.held.append(adr)
        elif expected is None and new == 0 and adr in self.held:
            self.held.remove(adr)


def start(env, kind, nodes):
    """-> session, world, storage of these files"""
    c, w = session(env, nodes if kind == "file" else {})
    h = c.call("files" if kind == "file" else "memory", *K(c, (w.root if kind == "file" else "/m").encode()))
    if kind == "memory":
        for k in nodes:
            env.prove(c.call("create", h, *K(c, k.encode()), c.buf(nodes[k]), len(nodes[k]), *K(c, b"")) == 1, "writing")
    return c, w, h


def anywhere(kind, mine, second):
    """one thread reads, another one performs an operation at any point where the first one uses locks"""
    def scenario(env):
        op, key = second
        nodes = {"a": env.bytes("a", 3), "b": env.bytes("b", 2)}
        c, w, h = start(env, kind, nodes)
        try:
            if not env.symbolic:
                env.int_in("at", 0, 30)
                env.prove(c.call("stress", 1 if kind == "memory" else 0, *K(c, w.root.encode()), OPS.index(op), *K(c, mine.encode()), *K(c, key.encode())) == 1,
                          "data handed out to both threads is valid, and they do not wait for each other")
                return
            at = env.int_in("at", 0, 30).__index__()
            o1, o2 = c.buf(16), c.buf([0] * 16)
            k2 = K(c, key.encode())
            m, seen = c.m, [0, 0]

            def hook(adr, expected, new):
                if seen[0] == at and not m.other:
                    seen[0] += 1
                    m.at_atomic = None
                    if not isolated(m, lambda: seen.__setitem__(1, 1 + c.call("act", OPS.index(op), h, *k2, o2))):
                        seen[1] = 0
                    m.at_atomic = hook
                else:
                    seen[0] += 1
            m.other, m.at_atomic = False, hook
            try:
                got = c.call("raw", h, *K(c, mine.encode()), o1)
            finally:
                m.at_atomic = None
            env.prove(got == 1, "the first thread reads")
            if not seen[1]:
                seen[1] = 1 + c.call("act", OPS.index(op), h, *k2, o2)
            env.prove((seen[1] == 2) == (op != "subdir" and second != ("exists", "c")), "the second operation succeeds")
            n = len(nodes[mine])
            env.prove(same(env, c.read(u64(c, o1, 0), n), list(nodes[mine])), "data handed out to the first thread is valid")
            if op == "read":
                n = len(nodes[key])
                env.prove(same(env, c.read(u64(c, o2, 0), n), list(nodes[key])), "data handed out to the second thread is valid")
                if key == mine:
                    env.prove(u64(c, o1, 0) == u64(c, o2, 0), "both read the same data")
        finally:
            w.close()
    return scenario


def ordered(kind, first, second):
    """operations take locks in the same order"""
    def scenario(env):
        nodes = {"a": env.bytes("a", 3), "b": env.bytes("b", 2)}
        c, w, h = start(env, kind, nodes)
        try:
            if not env.symbolic:
                env.prove(c.call("stress", 1 if kind == "memory" else 0, *K(c, w.root.encode()), OPS.index(first[0]) * 8 + OPS.index(second[0]),
                                 *K(c, first[1].encode()), *K(c, second[1].encode())) == 1, "threads do not wait for each other")
                return
            orders = []
            for op, key in (first, second):
                c.m.at_atomic = l = Locks(c.m)
                try:
                    c.call("act", OPS.index(op), h, *K(c, key.encode()), c.buf([0] * 16))
                finally:
                    c.m.at_atomic = None
                env.prove(not l.held, "locks are released")
                orders.append(l.order)
            env.prove(not any((y, x) in orders[1] for x, y in orders[0]), "threads do not wait for each other")
        finally:
            w.close()
    return scenario


TAR = 9 if TIER != "quick" else 5


def tars(names, kinds, big=False, broken=False, second=None):
    """members of these names, kinds, offsets and sizes"""
    def scenario(env):
        mem = env.bytes("tar", TAR)
        c, w = session(env, {"x.tar": mem})
        try:
            bad = env.int_in("broken", 0, len(names)).__index__() if broken else 0
            c.call("reset", bad)
            want, dirs, refused = {}, set(), bad > 0
            for i, options in enumerate(names):
                name = pick(env, "name%d" % i, options)
                if name is None:
                    continue
                kind = pick(env, "kind%d" % i, second if second and i else kinds)
                if i == 0:
                    off, size = env.int_in("off", 0, TAR), env.int_in("size", 0, (1 << 64) - 1 if big else TAR)
                else:
                    off, size = pick(env, "at%d" % i, [(1, 3), (0, 0), (TAR - 1, 2)])
                stored = size
                if kind == "sparse":
                    stored = env.int_in("stored%d" % i, 0, 20)
                    if stored != size:
                        refused = True
                if kind == "dir":
                    size, stored = 0, 0
                c.call("member", *K(c, name.encode()), off, size, stored, 53 if kind == "dir" else 48)
                key = name[2:] if name.startswith("./") else name
                if kind == "dir":
                    want.pop(key.rstrip("/"), None)
                    dirs.add(key.rstrip("/"))
                else:
                    want[key] = (off, size)
                    dirs.discard(key)
            h = c.call("archive", *K(c, (w.root + "/x.tar").encode()))
            if refused:
                env.prove(h == 0, "damaged archives and sparse members are refused")
                return
            env.prove(h != 0, "the archive opens")
            s = c.call("subdir", h, *K(c, b"sub"))
            for p in ["a", "b", "sub/a"] + [x for x in (".a", "..a", ".b", "a.b", "...") if any(x in o or "./" + x in o for o in names)]:
                at, n = (s, "a") if p == "sub/a" else (h, p)
                if p in dirs:
                    out = c.buf(16)
                    ok = c.call("raw", at, *K(c, n.encode()), out)
                    env.prove(ok == 0 or u64(c, out, 1) == 0, p + ": directories hold no data")
                    continue
                if p not in want:
                    env.prove(c.call("has", at, *K(c, n.encode())) == 0, p + ": does not exist")
                    check_read(env, c, at, n.encode(), None, p)
                    continue
                off, size = want[p]
                fits = off + size <= TAR
                out = c.buf(16)
                ok = c.call("raw", at, *K(c, n.encode()), out)
                if not fits:
                    env.prove(env.all(ok == 0) or env.all(u64(c, out, 1) < size), p + ": truncated members are not complete")
                    continue
                env.prove(ok == 1, p + ": found")
                env.prove(c.call("has", at, *K(c, n.encode())) == 1, p + ": exists")
                env.prove(u64(c, out, 1) == size, p + ": size")
                k = size.__index__()
                if k:
                    env.prove(same(env, c.read(u64(c, out, 0), k), list(mem[off.__index__():off.__index__() + k])), p + ": content")
            if bad == 0:
                env.prove(c.call("create", h, *K(c, b"new"), *K(c, b"x"), *K(c, b"y")) == 0, "tar archives are read-only")
        finally:
            w.close()
    return scenario


F = ["FileResourceStorage, TarArchiveResourceStorage (LLVM IR of the crate): subdir, exists, read_resource, create_output_stream, read, write"]
UNIT = None


def build():
    global UNIT
    UNIT = RustUnit("R07", "files", "namespace n { struct S { a : u8; } }", BODY, stubs=("diff", "memmap2", "walkdir", "tar"), cfg=["--cfg", 'feature="tar"'])
    UNIT.intercepts.update(fsmodel.FS)
    UNIT.intercepts["harness_preempt"] = _preempt
    build_rust([UNIT])
    for n in list(UNIT.mod.functions) + list(UNIT.mod.declares):
        if re.search(r"lock_contended|futex_wait", n):
            UNIT.intercepts[n[1:]] = _wait
        if re.search(r"hashmap_random_keys", n):
            UNIT.intercepts[n[1:]] = lambda m, a, name: [1, 2]
    UNIT.intercepts.update({"getrandom": _seed, "__cxa_thread_atexit_impl": _no, "dlsym": _no, "gnu_get_libc_version": _no})
    hs = []

    def add(name, sc, B, **kw):
        hs.append(PyHarness(name, sc, F, B, validate=kw.pop("validate", 6), **kw))
    add("read/flat", reading(["a", "b"], (0, 1, 3)), "any of the files a and b with 0, 1 or 3 arbitrary bytes")
    add("read/sub", reading(["a", "sub", "sub/a", "sub/b"], (2,)), "any of the files a, sub, sub/a, sub/b")
    for i, (before, keys) in enumerate((({}, ["r"]), ({"r": b"old content"}, ["r"]), ({"a": b"stay"}, ["r", "r"]), ({}, ["out/r"]),
                                        ({"out": DIR, "out/r": b"1234567890", "out/s": b"stay"}, ["out/r", "q"]))):
        for sizes in ((0, 0), (3, 2)) if TIER == "quick" else ((0, 0), (3, 2), (9, 0), (0, 4)):
            add("write/%d/%d-%d" % ((i,) + sizes), writing(before, keys, sizes), "writes of arbitrary bytes over %s" % sorted(before))
    for n in (0, 1, 4):
        add("framed/%d" % n, framing(n), "resources of %d arbitrary bytes" % n)
    for keys in ((b"a", b"a"), (b"a", b"b"), (b"a", b"c")):
        for again in (None, b"b"):
            add("race/%s-%s/%s" % (keys[0].decode(), keys[1].decode(), again.decode() if again else "no"), race(keys, again),
                "a second reader at the point where a file is being mapped", validate=1)
    for k in ("file", "dir", "sparse"):
        add("tar/kinds/" + k, tars([["a"], ["b", "sub/a"]], [k], second=["file", "dir", "sparse"]), "two members of any kind, offset and size", weight=5)
    for n in ("a", "./a", "sub/a", "./sub/a"):
        add("tar/names/" + n, tars([[n], ["a", "./b", "./sub/a", "ab", "subx/a", None]], ["file"]), "names with and without ./", weight=5)
    add("tar/dots", tars([[".a", "..a", "./.a"], ["a", "./..a"]], ["file"]), "names with dots", weight=5)
    acts = [("read", "a"), ("read", "b"), ("exists", "a"), ("exists", "c"), ("write", "c"), ("stream", "c"), ("subdir", "a"), ("debug", "a")]
    for kind in ("file", "memory"):
        for x in acts:
            add("any/%s/%s-%s" % ((kind,) + x), anywhere(kind, "a", x), "one thread reads, another one runs at any use of a lock", validate=1)
            for y in acts[acts.index(x):]:
                add("order/%s/%s-%s/%s-%s" % ((kind,) + x + y), ordered(kind, x, y), "two operations of two threads", validate=1)
    add("tar/truncated", tars([["a"]], ["file"], big=True), "members of up to 2^40 bytes")
    add("tar/broken", tars([["a"], ["b"]], ["file"], broken=True), "archives whose parser fails")
    return hs


if __name__ == "__main__":
    main("R07", both(build), RUST_ASSUME + ["the operating system's file calls are modelled (engine/fsmodel.py) in the symbolic runs; replays use real directories",
                                      "the crates memmap2 (mappings are copies) and tar (members are given) are stand-ins in both",
                                      "interleavings: one other reader, running at the point where a file is being mapped"],
         ["failures of the operating system", "links and special files", "files changed while they are mapped"])
