"""Harnesses over the Rust crate: IR of the crate, the generated code, the harness and the parts of std which
they reach (link time optimisation merges std's bitcode), plus an address sanitizer build for replays."""
from cpplib import *

RS = os.path.join(REPO, "flatdata-rs", "lib", "src")
# stand-ins of crates used only by file storage and diagnostics
STUBS = os.path.join(VERIF, "engine", "rsstub")


def rust_code(schema):
    return Engine(schema).render("rust")


PRELUDE = '''#![allow(warnings)]
#[macro_use] extern crate flatdata;
use flatdata::*;
type U = u64;
#[cfg(not(symbolic))] extern "C-unwind" { fn harness_throw() -> u64; }
macro_rules! api { ($name:ident($($a:ident : $t:ty),*) $body:block) => {
    #[no_mangle] #[inline(never)] pub unsafe extern "C-unwind" fn $name($($a: $t),*) -> u64 {
        #[cfg(symbolic)] { (|| -> u64 { $body })() }
        #[cfg(not(symbolic))] { match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> u64 { $body })) {
            Ok(v) => v, Err(_) => harness_throw() } }
    } } }
unsafe fn bytes<'a>(p: *const u8, n: u64) -> &'a [u8] { std::slice::from_raw_parts(p, n as usize) }
'''

THROW = 'extern "C" unsigned long harness_throw() { throw 1; }\n'

PANIC = re.compile(r"^@_R.*(4core9panicking\d|4core6option\d+(unwrap|expect)_failed|4core6result\d+unwrap_failed|"
                   r"4core5slice5index\d+slice_|3std9panicking\d+(panic_handler|begin_panic_handler|panic_with_hook)|"
                   r"5alloc7raw_vec\d+(handle_error|capacity_overflow)|5alloc5alloc\d+handle_alloc_error|"
                   r"4core4cell\d+panic_|4core3str\d+slice_error_fail)|_rust_begin_unwind|@rust_begin_unwind|rust_panic")


MODE = ["release"]


def debug():
    """Whether units are being built with overflow checks and debug assertions."""
    return MODE[0] == "debug"


def both(build):
    """The harnesses of build() over release code and over debug code."""
    def harnesses():
        hs = build()
        MODE[0] = "debug"
        more = build()
        MODE[0] = "release"
        for h in more:
            h.name = "debug/" + h.name
        return hs + more
    return harnesses


def _panic(m, a, name):
    if "nounwind" in name or "cannot_unwind" in name or "handle_alloc_error" in name or "panic_in_cleanup" in name:
        m.bad("the process aborts (%s)" % name[-60:])
    m.throw("panic")


class RustUnit(Unit):
    def __init__(self, prop, name, schema, body, buffer_limit=None, stubs=("diff", "memmap2", "walkdir"), cfg=()):
        self.stubs, self.cfg, self.mode = stubs, list(cfg), MODE[0]
        Unit.__init__(self, prop, name + ("-debug" if debug() else ""), {"gen.rs": rust_code(schema), "unit.rs": PRELUDE + 'include!("gen.rs");\n' + body,
                                         "throw.cpp": THROW}, "unit.rs", lang="rust", buffer_limit=buffer_limit)
        self.intercepts = dict(RUST)

    def build(self):
        for n, t in self.files.items():
            open(os.path.join(self.dir, n), "w").write(t)
        lib = os.path.join(self.dir, "lib")
        os.makedirs(lib)
        for f in os.listdir(RS):
            if f.endswith(".rs"):
                t = open(os.path.join(RS, f), encoding="utf-8").read()
                open(os.path.join(lib, f), "w", encoding="utf-8").write(LIMIT.sub("%d" % self.buffer_limit, t) if self.buffer_limit is not None else t)
        if os.path.isdir(os.path.join(RS, "test")):
            shutil.copytree(os.path.join(RS, "test"), os.path.join(lib, "test"))
        mode = "on" if self.mode == "debug" else "off"
        flags = ["--edition", "2018", "-C", "codegen-units=1", "--cap-lints", "allow", "-C", "overflow-checks=" + mode, "-C", "debug-assertions=" + mode]

        def chain(out, fl, final):
            os.makedirs(out)
            f = flags + fl + ["--out-dir", out, "-L", out]
            for s in self.stubs:
                sh(["rustc"] + f + ["--crate-type", "rlib", os.path.join(STUBS, s + ".rs")], env=self.env)
            sh(["rustc"] + f + ["--crate-type", "rlib", "--crate-name", "flatdata", os.path.join(lib, "lib.rs")] + self.cfg +
               [x for s in self.stubs for x in ("--extern", "%s=%s/lib%s.rlib" % (s, out, s))], env=self.env)
            sh(["rustc"] + f + ["--crate-name", "unit", os.path.join(self.dir, "unit.rs"), "--extern", "flatdata=%s/libflatdata.rlib" % out] +
               (["--extern", "memmap2=%s/libmemmap2.rlib" % out, "--extern", "tar=%s/libtar.rlib" % out] if "tar" in self.stubs else []) + final, env=self.env)
        self.env = dict(os.environ, RUSTC_BOOTSTRAP="1")

        def ir():
            out = os.path.join(self.dir, "ir")
            chain(out, ["-C", "opt-level=1", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
                  ["--crate-type", "cdylib", "-C", "lto=fat", "--emit=llvm-ir,link", "--cfg", "symbolic"])
            self.ll = os.path.join(out, "unit.ll")

        def native():
            out = os.path.join(self.dir, "native")
            chain(out, ["-C", "opt-level=1", "-Zsanitizer=address", "-Zexternal-clangrt"], ["--crate-type", "staticlib"])
            self.exe = os.path.join(self.dir, "unit.exe")
            sh(["clang++", "-std=c++17", "-O1", "-w", "-rdynamic", "-fsanitize=address", os.path.join(VERIF, "engine", "driver.cpp"),
                os.path.join(self.dir, "throw.cpp"), "-Wl,--whole-archive", out + "/libunit.a", "-Wl,--no-whole-archive", "-o", self.exe,
                "-ldl", "-lpthread", "-lm"])
        return [ir, native]

    def load(self, rt=None):
        self.mod = llir.Module(open(self.ll).read())
        self.mod.fallback = None
        for n in list(self.mod.functions) + list(self.mod.declares):
            if PANIC.search(n):
                self.intercepts[n[1:]] = _panic
            for rx, f in BY_NAME:
                if rx.search(n):
                    self.intercepts[n[1:]] = f


def build_rust(units):
    jobs = []
    for u in units:
        shutil.rmtree(u.dir, ignore_errors=True)
        os.makedirs(u.dir)
        jobs += u.build()
    with cf.ThreadPoolExecutor(max_workers=8) as pool:
        for f in [pool.submit(j) for j in jobs]:
            f.result()
    for u in units:
        u.load()
    return units


RUST = {}


def rlib(*names):
    def deco(f):
        for n in names:
            RUST[n] = f
        return f
    return deco


@rlib("posix_memalign")
def _posix_memalign(m, a, name):
    n = m.fork_value(a[2], 64)
    m.store(llir.PTR, m.alloc(n).base, a[0])
    return 0


@rlib("__errno_location")
def _errno(m, a, name):
    if not hasattr(m, "errno"):
        m.errno = m.alloc(4, "global", "errno", [0] * 4).base
    return m.errno


@rlib("pthread_key_create", "pthread_setspecific", "__cxa_thread_atexit_impl")
def _pt(m, a, name):
    return 0


def _alloc(m, a, name):
    n = m.fork_value(a[0], 64)
    if n > 1 << 20:
        return 0
    return m.alloc(n, cells=[0] * n if "zeroed" in name else None).base


def _realloc(m, a, name):      # ptr, old size, align, new size
    n = m.fork_value(a[3], 64)
    if n > 1 << 20:
        return 0
    old, off = m.find(m.addr(a[0]), 0, False)
    if off or old.kind != "heap":
        m.bad("reallocation of a pointer not obtained from an allocation")
    o = m.alloc(n)
    k = min(old.size, n)
    o.cells[:k] = old.cells[:k]
    old.alive = False
    return o.base


def _dealloc(m, a, name):
    o, off = m.find(m.addr(a[0]), 0, False)
    if off or o.kind != "heap":
        m.bad("free of a pointer not obtained from an allocation")
    n = m.fork_value(a[1], 64)
    if n != o.size:
        m.bad("deallocation with a size different from the allocation's")
    o.alive = False


def _components(m, a, name):
    m.exec(m.mod.functions[name].parse(), a)
    if type(a[1]) is int and type(a[2]) is int:
        m.paths = getattr(m, "paths", [])[-3:] + [(a[1], a[2])]


def _plain_path(m, p, n):
    """components of a concrete absolute path without . and .."""
    b = m.load_bytes(p, n)
    if not b or not all(type(x) is int for x in b) or b[0] != 47:
        return None
    parts = [x for x in bytes(b).split(b"/") if x]
    return None if b"." in parts or b".." in parts else parts


def _compare_components(m, a, name):
    """ordering of paths which were just split, component by component"""
    got = []
    for s in a:
        o, off = m.find(m.addr(s), 64, False)
        cells = [m.load_bytes(s + 8 * i, 8) for i in range(8) if all(type(c) is int for c in o.cells[off + 8 * i:off + 8 * i + 8])]
        words = [sum(c << (8 * i) for i, c in enumerate(w)) for w in cells]
        pair = [w for w in zip(words, words[1:]) if w in getattr(m, "paths", [])[-2:]]
        got.append(_plain_path(m, *pair[0]) if pair else None)
    if None in got:
        return m.exec(m.mod.functions[name].parse(), a)
    return 255 if got[0] < got[1] else int(got[0] > got[1])


BY_NAME = [(re.compile(r"^@_R\w*3std4pathNt\w*4Path10components$"), _components), (re.compile(r"^@_R\w*3std4path18compare_components$"), _compare_components),
           (re.compile(r"^@_R.*7___rustc\d+_*(rdl|rust|rg)_alloc(_zeroed)?$"), _alloc), (re.compile(r"^@_R.*7___rustc\d+_*(rdl|rust|rg)_realloc$"), _realloc),
           (re.compile(r"^@_R.*7___rustc\d+_*(rdl|rust|rg)_dealloc$"), _dealloc), (re.compile(r"no_alloc_shim"), lambda m, a, name: 0),
           (re.compile(r"^@_R.*3std6thread7current|3std6thread9thread_id"), lambda m, a, name: 1)]

RUST_ASSUME = ["LLVM IR (rustc, opt-level 1, LTO with std; with and without overflow checks and debug assertions) of the crate and of the generated code is the code under test; replays in an address sanitizer build",
               "std's ordering of concrete absolute paths is modelled (component by component); the rest of std runs as compiled"]

# harness functions over a memory storage; results of reads: 1 or a number of the error
STORAGE = '''
type St = std::sync::Arc<MemoryResourceStorage>;
unsafe fn out(o: *mut u64, v: &[u64]) -> u64 { for i in 0..v.len() { *o.add(i) = v[i]; } 1 }
unsafe fn text<'a>(p: *const u8, n: u64) -> &'a str { std::str::from_utf8_unchecked(bytes(p, n)) }
fn code(e: &ResourceStorageError) -> u64 { match e { ResourceStorageError::Missing => 10, ResourceStorageError::MissingData => 11,
  ResourceStorageError::UnexpectedDataSize => 12, ResourceStorageError::WrongSignature { .. } => 13, ResourceStorageError::Utf8Error(_) => 14,
  ResourceStorageError::Io(_, _) => 15, ResourceStorageError::TooBig { .. } => 16, _ => 17 } }
fn handle(s: &St) -> StorageHandle { s.clone() }
api!(storage() { Box::into_raw(Box::new(MemoryResourceStorage::new("/m"))) as u64 });
api!(dir(s: *const St, k: *const u8, kl: u64) { let h = (**s).subdir(text(k, kl)); let raw = std::sync::Arc::into_raw(h) as *const MemoryResourceStorage;
  Box::into_raw(Box::new(std::sync::Arc::from_raw(raw))) as u64 });
api!(put(s: *const St, k: *const u8, kl: u64, p: *const u8, n: u64) { use std::io::Write;
  let mut w = (**s).create_output_stream(text(k, kl)).unwrap(); w.write_all(bytes(p, n)).unwrap(); 0 });
api!(raw(s: *const St, k: *const u8, kl: u64, o: *mut u64) { match (**s).read_resource(text(k, kl)) { Ok(r) => out(o, &[r.as_ptr() as u64, r.len() as u64]), Err(_) => 0 } });
api!(has(s: *const St, k: *const u8, kl: u64) { (**s).exists(text(k, kl)) as u64 });
api!(st_read(s: *const St, k: *const u8, kl: u64, t: *const u8, tl: u64, o: *mut u64) { match (**s).read(text(k, kl), text(t, tl)) {
  Ok(r) => out(o, &[r.as_ptr() as u64, r.len() as u64]), Err(e) => code(&e) } });
api!(st_write(s: *const St, k: *const u8, kl: u64, t: *const u8, tl: u64, p: *const u8, n: u64) {
  match (**s).write(text(k, kl), text(t, tl), bytes(p, n)) { Ok(()) => 1, Err(_) => 0 } });
'''


def same(env, a, b):
    return env.all(*[x == y for x, y in zip(a, b)])


def number(b):
    v = 0
    for k in range(len(b)):
        v = v + (b[k] << (8 * k))
    return v


def u64(c, p, i):
    return number(c.read(p + 8 * i, 8))


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def K(c, data):
    """address and length of data"""
    return c.buf(data if len(data) else b"\1"), len(data)


def put(c, s, key, data):
    c.call("put", s, *K(c, key), *K(c, data))


def stored(env, c, s, key, payload, schema, what):
    """proves the bytes stored, returns the address of the payload"""
    out = c.buf(16)
    framed = le(len(payload), 8) + list(payload) + [0] * 8
    env.prove(c.call("raw", s, *K(c, key), out) == 1, what + ": stored")
    p, n = u64(c, out, 0), u64(c, out, 1)
    env.prove(n == len(framed), what + ": stored size")
    env.prove(same(env, c.read(p, len(framed)), framed), what + ": stored bytes")
    env.prove(c.call("raw", s, *K(c, key + b".schema"), out) == 1, what + ": schema stored")
    q, n = u64(c, out, 0), u64(c, out, 1)
    env.prove(n == len(schema), what + ": stored schema length")
    if len(schema):
        env.prove(same(env, c.read(q, len(schema)), list(schema)), what + ": stored schema")
    return p + 8
