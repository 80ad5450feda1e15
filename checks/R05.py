"""R05: Rust multivectors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from rustlib import *
from pylib import mk_bytes

TYPES = {"A": (1, [("a", 0, 3, 0)]), "B": (2, [("x", 0, 9, 0), ("y", 9, 7, 1)]), "C": (9, [("p", 0, 64, 0), ("q", 64, 3, 1)])}
TEXT = {"A": "a : u8 : 3;", "B": "x : u16 : 9; y : i8 : 7;", "C": "p : u64 : 64; q : i16 : 3;"}
RTYPE = {"a": "u8", "x": "u16", "y": "i8", "p": "u64", "q": "i16"}
VECTORS = {"v33": (33, "AB"), "v4": (4, "BA"), "v8": (8, "CAB"), "v64": (64, "B"), "v17": (17, "BC")}
SCHEMA = "namespace n { %s archive Arc { %s } }" % (
    " ".join("struct %s { %s }" % i for i in TEXT.items()),
    " ".join("%s : multivector< %d, %s >;" % (k, w, ", ".join(l)) for k, (w, l) in VECTORS.items()))


def vec_code(name, width, letters):
    V = name.upper()
    s = '''
type Idx_%(v)s = n::_builtin::multivector::IndexType%(w)d;
type View_%(v)s = MultiArrayView<'static, n::%(V)s>;
pub struct S_%(v)s { v: Option<MultiVector<'static, n::%(V)s>>, l: Option<n::%(V)sBuilder<'static>>, view: Option<View_%(v)s> }
unsafe fn items_%(v)s(it: impl Iterator<Item = n::%(V)sRef<'static>>, o: *mut u64) -> u64 { let mut k = 0; let mut it = it;
  while let Some(r) = it.next() { let (t, a) = match r { %(arms)s }; *o.add(2 * k) = t; *o.add(2 * k + 1) = a; k += 1; }
  assert!(it.next().is_none()); k as u64 }
api!(new_%(v)s(s: *const St, k: *const u8, kl: u64, t: *const u8, tl: u64) { let st: &'static MemoryResourceStorage = &**s;
  match create_multi_vector::<n::%(V)s>(st, text(k, kl), text(t, tl)) {
  Ok(v) => Box::into_raw(Box::new(S_%(v)s { v: Some(v), l: None, view: None })) as u64, Err(_) => 0 } });
api!(grow_%(v)s(s: *mut S_%(v)s) { let s: &'static mut S_%(v)s = &mut *s; match s.v.as_mut().unwrap().grow() { Ok(l) => { s.l = Some(l); 1 } Err(_) => 0 } });
api!(close_%(v)s(s: *mut S_%(v)s) { let s = &mut *s; let v = s.v.take().unwrap(); match v.close() { Ok(x) => { s.view = Some(x); 1 } Err(e) => code(&e) } });
api!(of_%(v)s(s: *mut S_%(v)s) { let s = &*s; s.view.as_ref().unwrap() as *const _ as u64 });
api!(view_%(v)s(i: *const u8, il: u64, d: *const u8, dl: u64) { match <&'static [Idx_%(v)s]>::from_bytes(bytes(i, il)) {
  Ok(x) => Box::into_raw(Box::new(View_%(v)s::new(x, bytes(d, dl)))) as u64, Err(_) => 0 } });
api!(open_%(v)s(s: *const St, k: *const u8, kl: u64, t: *const u8, tl: u64) { let st: &'static MemoryResourceStorage = &**s; let key = text(k, kl);
  let i = match st.read(&format!("{}_index", key), &format!("index({})", text(t, tl))) { Ok(x) => x, Err(e) => return code(&e) };
  let d = match st.read(key, text(t, tl)) { Ok(x) => x, Err(e) => return code(&e) };
  match <&'static [Idx_%(v)s]>::from_bytes(i) { Ok(x) => Box::into_raw(Box::new(View_%(v)s::new(x, d))) as u64, Err(e) => code(&e) } });
api!(size_%(v)s(v: *const View_%(v)s) { let v = &*v; assert!(v.is_empty() == (v.len() == 0)); assert!(v.iter().len() == v.len()); v.len() as u64 });
api!(at_%(v)s(v: *const View_%(v)s, i: u64, o: *mut u64) { let v = &*v; items_%(v)s(v.at(i as usize), o) });
api!(sub_%(v)s(v: *const View_%(v)s, i: u64, j: u64) { let v = &*v; Box::into_raw(Box::new(v.slice(i as usize..j as usize))) as u64 });
api!(iter_%(v)s(v: *const View_%(v)s) { let v = &*v; Box::into_raw(Box::new(v.iter())) as u64 });
api!(next_%(v)s(it: *mut <View_%(v)s as IntoIterator>::IntoIter, back: u64, o: *mut u64) { let it = &mut *it; let before = it.len();
  match if back != 0 { it.next_back() } else { it.next() } {
  Some(x) => { assert!(it.len() + 1 == before); items_%(v)s(x, o) } None => { assert!(it.len() == 0); !0u64 } } });
''' % dict(v=name, V=V, w=width, arms=" ".join("n::%sRef::%s(x) => (%d, x as *const _ as u64)," % (V, l, i) for i, l in enumerate(letters)))
    for l in letters:
        f = TYPES[l][1]
        s += '''
api!(add_%(v)s_%(l)s(s: *mut S_%(v)s, %(args)s) { let s = &mut *s; let m = s.l.as_mut().unwrap().add_%(low)s(); %(set)s 0 });
''' % dict(v=name, l=l, low=l.lower(), args=", ".join("v%d: u64" % k for k in range(len(f))),
           set=" ".join("m.set_%s(v%d as %s);" % (x[0], k, RTYPE[x[0]]) for k, x in enumerate(f)))
    return s


BODY = STORAGE + "\n".join(vec_code(k, w, l) for k, (w, l) in VECTORS.items())


def bits_of(fields, values, size):
    """cells of an element with the given field values"""
    total = 0
    for (n, off, w, s), v in zip(fields, values):
        total = total + ((v & ((1 << w) - 1)) << off)
    return [(total >> (8 * i)) & 255 for i in range(size)]


def check_list(env, c, got, out, items, base, what):
    env.prove(got == len(items), what + ": visits every element once")
    for k, (t, off) in enumerate(items):
        env.prove(env.all(u64(c, out, 2 * k) == t, u64(c, out, 2 * k + 1) == base + off), what + ": element %d" % k)


def check_view(env, c, name, view, spec, base, what):
    """spec: per list, (type number, offset of the element in the data)"""
    env.prove(c.call("size_" + name, view) == len(spec), what + ": number of lists")
    out = c.buf(16 * (max([len(x) for x in spec] + [0]) + 2))
    for i, items in enumerate(spec):
        check_list(env, c, c.call("at_" + name, view, i, out), out, items, base, what + ": list %d" % i)
    env.prove(throws(lambda: c.call("at_" + name, view, len(spec), out)) == 1, what + ": there are no more lists")
    for back in (0, 1):
        it = c.call("iter_" + name, view)
        for i, items in (list(enumerate(spec))[::-1] if back else enumerate(spec)):
            check_list(env, c, c.call("next_" + name, it, back, out), out, items, base, what + ": iterated list %d" % i)
        for k in (0, 1):
            env.prove(c.call("next_" + name, it, k, out) == (1 << 64) - 1, what + ": the iteration ends")


def slices(env, c, name, view, spec, base):
    i, j = env.int_in("i", 0, len(spec) + 1).__index__(), env.int_in("j", 0, len(spec) + 1).__index__()
    if i > j or j > len(spec):
        env.prove(throws(lambda: c.call("sub_" + name, view, i, j)) == 1, "slices outside of the view are refused")
    else:
        check_view(env, c, name, c.call("sub_" + name, view, i, j), spec[i:j], base, "slice")


def writing(unit, name, steps, start=()):
    width, letters = VECTORS[name]
    isz = (width + 7) // 8

    def scenario(env):
        c = unit.session(env)
        st = c.call("storage")
        s = c.call("new_" + name, st, *K(c, b"res"), *K(c, b"some schema"))
        data, spec, index, values = [], [], [], []
        full = False
        for k in range(len(start) + steps):
            op = start[k] if k < len(start) else env.int_in("op%d" % k, 0, len(letters) + 1).__index__()
            if op == len(letters) + 1:
                break
            if op == len(letters):
                if len(data) >= 1 << width:
                    full = True
                    break
                env.prove(c.call("grow_" + name, s) == 1, "adding a list succeeds")
                index.append(len(data))
                spec.append([])
                continue
            env.assume(len(spec) > 0)
            l = letters[op]
            size, fields = TYPES[l]
            vals = [env.int_in("k%d%s" % (k, f[0]), -(1 << (f[2] - 1)) if f[3] else 0, (1 << (f[2] - f[3])) - 1) for f in fields]
            c.call("add_" + name + "_" + l, s, *vals)
            data += [op]
            spec[-1].append((op, len(data)))
            data += bits_of(fields, vals, size)
        if full or len(data) >= 1 << width:
            env.prove((c.call("grow_" + name, s) == 0) if full else (c.call("close_" + name, s) == 15), "data the index cannot address is refused")
            c.close()
            return
        index.append(len(data))
        env.prove(c.call("close_" + name, s) == 1, "closing succeeds")
        stored(env, c, st, b"res_index", [b for i in index for b in le(i, isz)], b"index(some schema)", "index")
        base = stored(env, c, st, b"res", data, b"some schema", "data")
        env.observe("data", c.read(base, len(data)) if data else 0)
        check_view(env, c, name, c.call("of_" + name, s), spec, base, "closed")
        v = c.call("open_" + name, st, *K(c, b"res"), *K(c, b"some schema"))
        env.prove(v > 100, "the resource opens")
        check_view(env, c, name, v, spec, base, "reopened")
        env.prove(c.call("open_" + name, st, *K(c, b"res"), *K(c, b"same schema")) == 13, "another schema does not open")
        c.close()
    return scenario


def reading(unit, name, total, lists):
    """any data bytes and any index entries"""
    width, letters = VECTORS[name]
    isz = (width + 7) // 8

    def scenario(env):
        c = unit.session(env)
        data = env.bytes("d", total)
        offs = [env.int_in("o%d" % i, 0, (1 << width) - 1) for i in range(lists + 1)]
        junk = env.int_in("junk", 0, (1 << (8 * isz - width)) - 1)
        spec = []
        for b in range(lists):
            if not (offs[b] <= offs[b + 1]) or not (offs[b + 1] <= total):
                spec.append(None)
                continue
            pos, end = offs[b].__index__(), offs[b + 1].__index__()
            items = []
            while pos < end:
                if not data[pos] < len(letters):
                    items = None
                    break
                ty = data[pos].__index__()
                size = TYPES[letters[ty]][0]
                if pos + 1 + size > end:
                    items = None
                    break
                items.append((ty, pos + 1))
                pos += 1 + size
            spec.append(items)
        idx = []
        for o in offs:
            v = o | (junk << width)
            idx += [(v >> (8 * i)) & 255 for i in range(isz)]
        ip, dp = c.buf(list(mk_bytes(env, idx))), c.buf(list(data) if total else b"\1")
        v = c.call("view_" + name, ip, len(idx), dp, total)
        env.prove(v != 0, "an index of whole entries opens")
        env.observe("size", c.call("size_" + name, v))
        if None not in spec:
            check_view(env, c, name, v, spec, dp, "view")
            if len(spec) < 3:
                slices(env, c, name, v, spec, dp)
        else:
            out = c.buf(16 * (total + 2))
            for i, items in enumerate(spec):
                if items is None:
                    env.prove(throws(lambda: c.call("at_" + name, v, i, out)) == 1, "invalid lists are refused")
                else:
                    check_list(env, c, c.call("at_" + name, v, i, out), out, items, dp, "list %d" % i)
        c.close()
    return scenario


def index_size(unit, name, most):
    isz = (VECTORS[name][0] + 7) // 8

    def scenario(env):
        c = unit.session(env)
        n = env.int_in("n", 0, most).__index__()
        v = c.call("view_" + name, c.buf(n or 1), n, c.buf(1), 0)
        env.prove((v != 0) == (n % isz == 0 and n > 0), "an index consists of whole entries, one more than lists")
        env.observe("n", n)
        if v:
            env.prove(c.call("size_" + name, v) == n // isz - 1, "lists of an index")
        c.close()
    return scenario


def build():
    u = RustUnit("R05", "multi", SCHEMA, BODY)
    f = RustUnit("R05", "flush", SCHEMA, BODY, buffer_limit=14)
    build_rust([u, f])
    hs = []
    B = "index widths 4, 8, 17, 33, 64; 1 to 3 types of 1, 2, 9 bytes; "
    for name, steps in (("v33", tier(5, 7)), ("v4", tier(6, 8)), ("v8", tier(4, 5)), ("v64", tier(5, 8)), ("v17", tier(4, 6))):
        W = B + "every sequence of up to %d operations, all field values" % steps
        hs.append(PyHarness("write/%s" % name, writing(u, name, steps), [], W, validate=6, weight=10))
        hs.append(PyHarness("flush/%s" % name, writing(f, name, steps), [], W + "; buffers flushed beyond 14 bytes", validate=6, weight=10))
        hs.append(PyHarness("index/%s" % name, index_size(u, name, 20), [], B + "index of 0..20 bytes", validate=2))
    hs.append(PyHarness("overflow/v4", writing(u, "v4", tier(4, 6), (2, 0, 0, 0, 0)), [],
                        B + "data beyond the range of the index", validate=6, weight=10))
    hs.append(PyHarness("overflow/flush/v4", writing(f, "v4", tier(4, 6), (2, 0, 0, 0, 2, 0)), [],
                        B + "data beyond the range of the index", validate=6, weight=10))
    for name, begin in (("v8", (3, 0, 3, 1, 2, 3, 0, 3, 2)), ("v17", (2, 1, 1, 2, 0, 2, 1, 1, 2, 1)), ("v64", (1, 0, 0, 1, 0, 0, 0, 0, 0, 1, 1, 0, 0))):
        hs.append(PyHarness("flush/twice/%s" % name, writing(f, name, tier(2, 3), begin), [],
                            B + "at least two flushes, then every sequence of 2 (3) operations", validate=6, weight=10))
    for name, total, lists in (("v33", tier(6, 10), 2), ("v8", tier(10, 13), 1), ("v8", 6, 2), ("v64", tier(5, 9), 3), ("v4", tier(7, 12), 2)):
        hs.append(PyHarness("read/%s/%d" % (name, total), reading(u, name, total, lists), [],
                            B + "every content of %d data bytes, every index of %d lists" % (total, lists), validate=6, weight=8))
    return hs


if __name__ == "__main__":
    main("R05", both(build), RUST_ASSUME, ["adding to a list after starting the next one", "streams which fail", "file-backed storage"])
