"""R03: Rust structures, slices, vectors, raw data."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from rustlib import *

FIELDS = {"A": [("a", "u8", 0, 3)], "B": [("x", "u16", 0, 9), ("y", "i8", 9, 6)], "C": [("p", "u64", 0, 64), ("q", "i16", 64, 3), ("t", "bool", 67, 1)],
          "R": [("f", "u16", 0, 15), ("g", "i8", 15, 6)], "Q": [("h", "u64", 0, 40), ("k", "u32", 40, 5)]}
SIZE = {"A": 1, "B": 2, "C": 9, "R": 3, "Q": 6}
RANGES = {"R": [("r", "u16", 0, 15)], "Q": [("u", "u64", 0, 40), ("w", "u32", 40, 5)]}
SCHEMA = "namespace n { const i8 NONE = -3; const u16 LAST = 511; %s struct O { @optional( NONE ) a : i8 : 5; b : u8 : 4; @optional( LAST ) c : u16 : 9; } }" % (
    " ".join("struct %s { %s }" % (n, " ".join(
        "%s%s : %s : %d;" % ("".join("@range( %s ) " % r[0] for r in RANGES.get(n, ()) if r[2] == o), f, t, w) for f, t, o, w in fs))
        for n, fs in FIELDS.items()))

BODY = '''
unsafe fn out(o: *mut u64, v: &[u64]) -> u64 { for i in 0..v.len() { *o.add(i) = v[i]; } 1 }
''' + "".join('''
api!(eq_%(n)s(a: *const n::%(n)s, b: *const n::%(n)s) { assert!((*a == *b) != (*a != *b)); (*a == *b) as u64 });
api!(fill_%(n)s(d: *mut n::%(n)s, s: *const n::%(n)s) { (*d).fill_from(&*s); 0 });
api!(sl_%(n)s(p: *const u8, k: u64, o: *mut u64) { match <&[n::%(n)s]>::from_bytes(bytes(p, k)) {
  Ok(s) => { let b = s.as_bytes(); out(o, &[s.as_ptr() as u64, s.len() as u64, b.as_ptr() as u64, b.len() as u64]) }
  Err(ResourceStorageError::UnexpectedDataSize) => 0, Err(_) => 2 } });
api!(sub_%(n)s(p: *const u8, k: u64, i: u64, j: u64, o: *mut u64) { let s = <&[n::%(n)s]>::from_bytes(bytes(p, k)).unwrap(); let t = &s[i as usize..j as usize];
  let b = t.as_bytes(); out(o, &[t.as_ptr() as u64, t.len() as u64, b.as_ptr() as u64, b.len() as u64]) });
api!(vnew_%(n)s() { Box::into_raw(Box::new(Vector::<n::%(n)s>::new())) as u64 });
api!(vdef_%(n)s() { Box::into_raw(Box::new(Vector::<n::%(n)s>::default())) as u64 });
api!(vlen_%(n)s(k: u64) { Box::into_raw(Box::new(Vector::<n::%(n)s>::with_len(k as usize))) as u64 });
api!(grow_%(n)s(v: *mut Vector<n::%(n)s>) { let v = &mut *v; v.grow() as *mut _ as u64 });
api!(clear_%(n)s(v: *mut Vector<n::%(n)s>) { let v = &mut *v; v.clear(); 0 });
api!(reserve_%(n)s(v: *mut Vector<n::%(n)s>, k: u64) { let v = &mut *v; v.reserve(k as usize); 0 });
api!(len_%(n)s(v: *const Vector<n::%(n)s>) { let v = &*v; assert!(v.is_empty() == (v.len() == 0)); v.len() as u64 });
api!(at_%(n)s(v: *const Vector<n::%(n)s>, i: u64) { let v = &*v; &v[i as usize] as *const _ as u64 });
api!(atm_%(n)s(v: *mut Vector<n::%(n)s>, i: u64) { let v = &mut *v; &mut v[i as usize] as *mut _ as u64 });
api!(view_%(n)s(v: *const Vector<n::%(n)s>, o: *mut u64) { let v = &*v; let s = v.as_view(); let b = s.as_bytes();
  out(o, &[s.as_ptr() as u64, s.len() as u64, b.as_ptr() as u64, b.len() as u64]) });
api!(all_%(n)s(v: *const Vector<n::%(n)s>, o: *mut u64) { let v = &*v; let s = &v[..]; let b = s.as_bytes();
  out(o, &[s.as_ptr() as u64, s.len() as u64, b.as_ptr() as u64, b.len() as u64]) });
api!(drop_%(n)s(v: *mut Vector<n::%(n)s>) { drop(Box::from_raw(v)); 0 });
''' % dict(n=n) for n in list(FIELDS) + ["O"]) + "".join('''
api!(fresh_%(n)s() { let x = Box::new(n::%(n)s::new()); let y = n::%(n)s::default(); assert!(x.as_bytes() == y.as_bytes()); Box::into_raw(x) as u64 });
api!(clone_%(n)s(p: *const n::%(n)s) { Box::into_raw(Box::new((*p).clone())) as u64 });
api!(by_%(n)s(p: *const n::%(n)s) { (*p).as_bytes().as_ptr() as u64 });
api!(from_%(n)s(p: *const u8, k: u64) { match n::%(n)s::from_bytes_slice(bytes(p, k)) { Ok(r) => r as *const _ as u64, Err(ResourceStorageError::UnexpectedDataSize) => 0, Err(_) => 2 } });
api!(fromm_%(n)s(p: *mut u8, k: u64) { match n::%(n)s::from_bytes_slice_mut(std::slice::from_raw_parts_mut(p, k as usize)) { Ok(r) => r as *const _ as u64,
  Err(ResourceStorageError::UnexpectedDataSize) => 0, Err(_) => 2 } });
''' % dict(n=n) for n in "ABCO") + "".join('''
api!(rng_%(n)s_%(r)s(p: *const n::%(n)s, o: *mut u64) { let r = (*p).%(r)s(); out(o, &[r.start as u64, r.end as u64]) });
''' % dict(n=n, r=r[0]) for n, rs in RANGES.items() for r in rs) + '''
api!(get_a(p: *const n::O, o: *mut u64) { match (*p).a() { Some(x) => out(o, &[x as i64 as u64]), None => 0 } });
api!(get_c(p: *const n::O, o: *mut u64) { match (*p).c() { Some(x) => out(o, &[x as u64]), None => 0 } });
api!(set_a(p: *mut n::O, some: u64, v: u64) { (*p).set_a(if some != 0 { Some(v as i8) } else { None }); 0 });
api!(set_c(p: *mut n::O, some: u64, v: u64) { (*p).set_c(if some != 0 { Some(v as u16) } else { None }); 0 });
api!(raw(p: *const u8, k: u64, start: u64, o: *mut u64) { let r = RawData::new(bytes(p, k)); let s = r.substring_raw(start as usize);
  out(o, &[s.as_ptr() as u64, s.len() as u64]) });
api!(sub(p: *const u8, k: u64, start: u64, o: *mut u64) { let r = RawData::new(bytes(p, k)); match r.substring(start as usize) {
  Ok(s) => out(o, &[s.as_ptr() as u64, s.len() as u64]), Err(_) => 0 } });
api!(usub(p: *const u8, k: u64, start: u64, o: *mut u64) { let r = RawData::new(bytes(p, k)); let s = r.substring_unchecked(start as usize);
  out(o, &[s.as_ptr() as u64, s.len() as u64]) });
api!(rawb(p: *const u8, k: u64, o: *mut u64) { let r = RawData::new(bytes(p, k)); let s = r.as_bytes(); let d: &[u8] = &*r;
  out(o, &[s.as_ptr() as u64, s.len() as u64, d.as_ptr() as u64, d.len() as u64]) });
'''


def same(env, a, b):
    return env.all(*[x == y for x, y in zip(a, b)])


def u64(c, p, i):
    b = c.read(p + 8 * i, 8)
    v = 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def field(b, f):
    return spec_read(b, f[2], f[3], f[1][0] == "i")


def values(unit, n):
    size = SIZE[n]

    def scenario(env):
        c = unit.session(env)
        a, b = env.bytes("a", size), env.bytes("b", size)
        p, q = c.buf(a), c.buf(b)
        eq = c.call("eq_" + n, p, q)
        env.observe("eq", eq)
        env.prove((eq == 1) == env.all(*[field(a, f) == field(b, f) for f in FIELDS[n]]), "%s equal exactly if all fields are equal" % n)
        pad = env.bytes("pad", 8)
        d = c.buf(list(pad[:4]) + list(b) + list(pad[4:]))
        c.call("fill_" + n, d + 4, p)
        after = c.read(d, size + 8)
        for f in FIELDS[n]:
            env.prove(field(after[4:4 + size], f) == field(a, f), "fill_from copies %s.%s" % (n, f[0]))
        last = FIELDS[n][-1]
        bits = last[2] + last[3]
        if bits % 8:
            env.prove(after[3 + size] >> (bits % 8) == b[size - 1] >> (bits % 8), "fill_from leaves unused bits")
        env.prove(same(env, after[:4], pad[:4]), "fill_from writes nothing before")
        env.prove(same(env, after[4 + size:], pad[4:]), "fill_from writes nothing behind")
        c.close()
    return scenario


def owned(unit, n, size, lenient=True):
    def scenario(env):
        c = unit.session(env)
        s = c.call("fresh_" + n)
        env.prove(same(env, c.read(s, size), [0] * size), "a new %s is zero" % n)
        v = env.bytes("v", size)
        p = c.buf(v)
        e = c.call("clone_" + n, p)
        env.observe("clone", c.read(e, size))
        env.prove(same(env, c.read(e, size), v), "a clone of %s has the same bytes" % n)
        env.prove(c.call("by_" + n, p) == p, "bytes of %s are its memory" % n)
        k = env.int_in("k", 0, size + 2).__index__()
        m = c.buf([1] * k)
        for fn in ("from_", "fromm_"):
            if k >= size:
                env.prove(c.call(fn + n, m, k) == m, "%s is created from its bytes" % n)
            else:
                try:
                    got = c.call(fn + n, m, k)
                except Thrown:
                    env.prove(lenient, "%s from %d bytes is an error, not a panic" % (n, k))
                else:
                    env.prove(got == 0, "%s is not created from too few bytes" % n)
        c.close()
    return scenario


def slices(unit, n, most):
    size, over = SIZE[n], n in RANGES

    def scenario(env):
        c = unit.session(env)
        k = env.int_in("k", 0, most * size + 1).__index__()
        data = env.bytes("data", k)
        p = c.buf(data)
        o = c.buf(32)
        got = c.call("sl_" + n, p, k, o)
        env.observe("got", got)
        want = k % size == 0 and (not over or k >= size)
        env.prove(got == int(want), "%d bytes are%s a slice of %s" % (k, "" if want else " not", n))
        if want:
            cnt = k // size - over
            env.prove(env.all(u64(c, o, 0) == p, u64(c, o, 1) == cnt), "%d bytes hold %d items %s" % (k, cnt, n))
            env.prove(env.all(u64(c, o, 2) == p, u64(c, o, 3) == k), "bytes of a slice are its memory")
            i, j = env.int_in("i", 0, most + 1).__index__(), env.int_in("j", 0, most + 1).__index__()
            if i <= j <= cnt:
                c.call("sub_" + n, p, k, i, j, o)
                env.prove(env.all(u64(c, o, 0) == p + i * size, u64(c, o, 1) == j - i, u64(c, o, 2) == p + i * size,
                                  u64(c, o, 3) == (j - i + over) * size), "slice %d..%d" % (i, j))
            else:
                env.prove(throws(lambda: c.call("sub_" + n, p, k, i, j, o)) == 1, "slices beyond the end are refused")
            for r in RANGES.get(n, ()):
                for x in range(cnt):
                    c.call("rng_%s_%s" % (n, r[0]), p + x * size, o)
                    env.prove(env.all(u64(c, o, 0) == field(data[x * size:], r), u64(c, o, 1) == field(data[(x + 1) * size:], r)),
                              "range %s of item %d ends at the next item's value" % (r[0], x))
        c.close()
    return scenario


def vectors(unit, n, steps):
    size, over = SIZE[n], n in RANGES

    def scenario(env):
        c = unit.session(env)
        k = env.int_in("start", 0, 4).__index__()
        v = c.call("vlen_" + n, k - 1) if k > 1 else c.call(("vnew_", "vdef_")[k] + n)
        items = [[0] * size for i in range(max(k - 1, 0))]
        o = c.buf(32)
        for t in range(steps):
            op = env.int_in("op%d" % t, 0, 3 + len(items)).__index__()
            if op == 0:
                break
            if op == 1:
                p = c.call("grow_" + n, v)
                env.prove(same(env, c.read(p, size), [0] * size), "added items are zero")
                items.append([0] * size)
                val = list(env.bytes("v%d" % t, size))
                c.write(p, val)
                items[-1] = val
            elif op == 2:
                c.call("clear_" + n, v)
                items = []
            elif op == 3:
                c.call("reserve_" + n, v, 3)
            else:
                val = list(env.bytes("v%d" % t, size))
                c.write(c.call("atm_" + n, v, op - 4), val)
                items[op - 4] = val
        env.prove(c.call("len_" + n, v) == len(items), "number of items")
        first = c.call("at_" + n, v, 0) if items else 0
        for i, x in enumerate(items):
            p = c.call("at_" + n, v, i)
            env.prove(p == first + i * size, "items are adjacent")
            env.prove(same(env, c.read(p, size), x), "item %d is the one stored" % i)
        for fn in ("at_", "atm_"):
            env.prove(throws(lambda: c.call(fn + n, v, len(items))) == 1, "items beyond the end are refused")
        flat = [b for x in items for b in x]
        cnt = max(len(items) - over, 0)
        if over and not items:
            flat = [0] * size
        c.call("view_" + n, v, o)
        env.prove(env.all(u64(c, o, 1) == cnt, u64(c, o, 2) == u64(c, o, 0), u64(c, o, 3) == len(flat)), "size of the view")
        b = u64(c, o, 2)
        env.observe("bytes", c.read(b, len(flat)) if flat else 0)
        env.prove(same(env, c.read(b, len(flat)) if flat else [], flat), "the view's bytes are those of the items")
        c.call("all_" + n, v, o)
        env.prove(env.all(u64(c, o, 1) == len(items), u64(c, o, 0) == b), "all items as a slice")
        whole = (len(items) + over) * size
        env.prove(u64(c, o, 3) == whole, "bytes of all items")
        if whole:
            env.prove(same(env, c.read(u64(c, o, 2), whole), [x for y in items for x in y] + [0] * (over * size)), "bytes of all items are within the vector")
        c.call("drop_" + n, v)
        c.close()
    return scenario


def optional(unit):
    def scenario(env):
        c = unit.session(env)
        mem = env.bytes("mem", 3)
        p, o = c.buf(mem), c.buf(8)
        for f, off, w, s, none in (("a", 0, 5, True, -3), ("c", 9, 9, False, 511)):
            raw = spec_read(mem, off, w, s)
            got = c.call("get_" + f, p, o)
            env.observe(f, got)
            env.prove((got == 0) == (raw == none), "%s is missing exactly if the sentinel is stored" % f)
            if got:
                v = c.read(o, 8)
                env.prove(same(env, v, [(raw >> (8 * i)) & 255 for i in range(8)]), "%s has the value stored" % f)
            some = env.boolean("some_" + f)
            val = env.int_in("val_" + f, -16 if s else 0, 15 if s else 511)
            q = c.buf(mem)
            c.call("set_" + f, q, int(bool(some)), val)
            after = c.read(q, 3)
            env.prove(spec_read(after, off, w, s) == (val if some else none), "setting %s stores the value or the sentinel" % f)
            for g, o2, w2 in (("a", 0, 5), ("b", 5, 4), ("c", 9, 9), ("unused", 18, 6)):
                if g != f:
                    env.prove(spec_read(after, o2, w2, False) == spec_read(mem, o2, w2, False), "setting %s leaves %s" % (f, g))
        p2 = c.buf(env.bytes("other", 3))
        c.call("fill_O", p2, p)
        a, b = c.read(p, 3), c.read(p2, 3)
        env.prove(env.all(*[spec_read(a, x, w, False) == spec_read(b, x, w, False) for x, w in ((0, 5), (5, 4), (9, 9))]), "fill_from copies missing values")
        env.prove(c.call("eq_O", p, p2) == 1, "filled structures are equal")
        c.close()
    return scenario


def rawdata(unit, most, strings, fixed=None):
    def scenario(env):
        c = unit.session(env)
        k = fixed or env.int_in("k", 0, most).__index__()
        data = env.bytes("data", k)
        if fixed:
            start = (0, 1, 2, 7, 8, 9, k - 8, k - 3, k - 2, k - 1, k)[env.int_in("start", 0, 10).__index__()]
        else:
            start = env.int_in("start", 0, most + 1).__index__()
        p, o = c.buf(data), c.buf(32)
        c.call("rawb", p, k, o)
        env.prove(env.all(u64(c, o, 0) == p, u64(c, o, 1) == k, u64(c, o, 2) == p, u64(c, o, 3) == k), "bytes of raw data")
        if start > k:
            for fn in ("raw", "sub", "usub"):
                env.prove(throws(lambda: c.call(fn, p, k, start, o)) == 1, "strings beyond the data are refused")
            c.close()
            return
        end = start
        while end < k and data[end] != 0:
            end += 1
        env.observe("end", end)
        for fn in ("raw", "usub"):
            c.call(fn, p, k, start, o)
            env.prove(env.all(u64(c, o, 0) == p + start, u64(c, o, 1) == end - start), "strings end at the first zero or at the end of the data")
        if strings:
            got = c.call("sub", p, k, start, o)
            env.prove(got == int(valid_utf8(data[start:end])), "strings are returned exactly if they are UTF-8")
            if got:
                env.prove(env.all(u64(c, o, 0) == p + start, u64(c, o, 1) == end - start), "strings end at the first zero or at the end of the data")
        c.close()
    return scenario


def valid_utf8(b):
    """Unicode standard, table 3-7"""
    i = 0
    while i < len(b):
        x = b[i]
        if x < 0x80:
            i += 1
            continue
        if x < 0xc2 or x > 0xf4:
            return False
        more = 1 if x < 0xe0 else 2 if x < 0xf0 else 3
        if i + more >= len(b):
            return False
        lo, hi = 0x80, 0xbf
        if x == 0xe0:
            lo = 0xa0
        elif x == 0xed:
            hi = 0x9f
        elif x == 0xf0:
            lo = 0x90
        elif x == 0xf4:
            hi = 0x8f
        for j in range(more):
            y = b[i + 1 + j]
            if y < lo or y > hi:
                return False
            lo, hi = 0x80, 0xbf
        i += more + 1
    return True


def build():
    u = RustUnit("R03", "values", SCHEMA, BODY)
    build_rust([u])
    B = "structures of 1 to 9 bytes with unused bits, booleans, signed fields; all contents symbolic"
    hs = []
    for n in FIELDS:
        hs.append(PyHarness("values/" + n, values(u, n), [], B, validate=3))
        k = tier(3, 4)
        hs.append(PyHarness("slices/" + n, slices(u, n, k), [], B + "; up to %d items, every sub-slice" % k, validate=4, weight=4))
        st = tier(4, 5)
        hs.append(PyHarness("vectors/" + n, vectors(u, n, st), [], B + "; 0..3 items to start with, up to %d operations" % st, validate=4, weight=6))
    for n, s in (("A", 1), ("B", 2), ("C", 9), ("O", 3)):
        hs.append(PyHarness("owned/" + n, owned(u, n, s), [], B, validate=3))
    hs.append(PyHarness("short", owned(u, "B", 2, False), [], "structures from too few bytes", known="R03/from-bytes-slice-panics"))
    hs.append(PyHarness("optional", optional(u), [], "signed and unsigned sentinels, every content", validate=3))
    hs.append(PyHarness("rawdata", rawdata(u, tier(4, 6), False), [], "every content and start of up to 4 (6) bytes", validate=4))
    for k in tier((17, 24), (16, 17, 24, 33, 65)):
        hs.append(PyHarness("rawdata/%d" % k, rawdata(u, 0, False, k), [], "every content of %d bytes, starts near the ends and around 8" % k, validate=2, weight=4))
    hs.append(PyHarness("strings", rawdata(u, tier(3, 4), True), [], "every content and start of up to 3 (4) bytes", validate=4, weight=5))
    return hs


if __name__ == "__main__":
    main("R03", both(build),
         ["LLVM IR (rustc, opt-level 1, LTO with std; with and without overflow checks and debug assertions) of the crate and of the generated code is the code under test; replays in an address sanitizer build"],
         ["slices of overlapping structures not obtained from flatdata data", "formatting (Debug)", "substring_lossy"])
