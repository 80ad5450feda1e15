"""R04: Rust resources: framing, schema check, external vectors, memory storage."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from rustlib import *

SCHEMA = """namespace n { struct S { a : u32 : 21; b : i16 : 13; } struct T { c : u8; } struct R { @range( r ) f : u16 : 15; g : u8 : 3; }
 archive Arc { s : vector< S >; t : vector< T >; q : vector< R >; } }"""
SIZE = {"S": 5, "T": 1, "R": 3}

BODY = STORAGE + "".join('''
api!(ext_%(n)s(s: *const St, k: *const u8, kl: u64, t: *const u8, tl: u64) { match create_external_vector::<n::%(n)s>(&**s, text(k, kl), text(t, tl)) {
  Ok(v) => Box::into_raw(Box::new(v)) as u64, Err(_) => 0 } });
api!(ext_grow_%(n)s(v: *mut ExternalVector<'static, n::%(n)s>) { let v = &mut *v; v.grow().unwrap() as *mut _ as u64 });
api!(ext_len_%(n)s(v: *const ExternalVector<'static, n::%(n)s>) { let v = &*v; assert!(v.is_empty() == (v.len() == 0)); v.len() as u64 });
api!(ext_close_%(n)s(v: *mut ExternalVector<'static, n::%(n)s>, o: *mut u64) { let v = Box::from_raw(v); match v.close() {
  Ok(s) => out(o, &[s.as_ptr() as u64, s.len() as u64]), Err(e) => code(&e) } });
api!(ext_drop_%(n)s(v: *mut ExternalVector<'static, n::%(n)s>) { drop(Box::from_raw(v)); 0 });
''' % dict(n=n) for n in SIZE)


def reading(unit, size, text):
    """any bytes as data and as schema"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        data, sch = env.bytes("data", size), env.bytes("sch", len(text))
        have_data, have_schema = env.boolean("have_data"), env.boolean("have_schema")
        if have_data:
            put(c, s, b"k", data)
        if have_schema:
            put(c, s, b"k.schema", sch)
        out = c.buf(16)
        got = c.call("st_read", s, *K(c, b"k"), *K(c, text), out)
        env.observe("got", got)
        env.prove(c.call("has", s, *K(c, b"k")) == int(bool(have_data)), "existence of the resource")
        fits = size >= 16 and number(data[:8]) == size - 16
        if not have_data:
            env.prove(got == 10, "a resource without data is missing")
        elif not have_schema:
            env.prove(got == 15, "a resource without schema is an error")
        elif not fits:
            env.prove(got == 12, "the size stored must be that of the data")
        else:
            env.prove((got == 1) == same(env, sch, text), "%d bytes open exactly if the schema matches" % size)
            env.prove(env.all(got != 10, got != 11, got != 12, got != 15), "otherwise the schema is reported")
        if got == 1:
            p, n = u64(c, out, 0), u64(c, out, 1)
            env.prove(n == size - 16, "the payload has the stored size")
            env.prove(same(env, c.read(p, size - 16), data[8:size - 8]) if size > 16 else True, "the payload is what was stored")
        c.close()
    return scenario


def lengths(unit, n):
    """schemas of other lengths never match"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        m = env.int_in("stored", 0, 3).__index__()
        sch = env.bytes("sch", m)
        put(c, s, b"k", le(0, 8) + [0] * 8)
        put(c, s, b"k.schema", sch)
        got = c.call("st_read", s, *K(c, b"k"), *K(c, b"a\xc3\xa4"[:n]), c.buf(16))
        env.observe("got", got)
        env.prove((got == 1) == (m == n and same(env, sch, b"a\xc3\xa4"[:n])), "a schema matches exactly if it is the same text")
        c.close()
    return scenario


def writing(unit, count):
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        data = env.bytes("data", count)
        again = env.boolean("again")
        if again:     # overwriting replaces all of the content
            k = env.int_in("k", 0, count + 1).__index__()
            env.prove(c.call("st_write", s, *K(c, b"k"), *K(c, b"schema"), *K(c, b"\7" * k)) == 1, "writing succeeds")
        env.prove(c.call("st_write", s, *K(c, b"k"), *K(c, b"sc"), *K(c, data)) == 1, "writing succeeds")
        base = stored(env, c, s, b"k", data, b"sc", "written")
        out = c.buf(16)
        env.prove(c.call("st_read", s, *K(c, b"k"), *K(c, b"sc"), out) == 1, "what is written opens")
        env.observe("n", u64(c, out, 1))
        env.prove(env.all(u64(c, out, 0) == base, u64(c, out, 1) == count), "what is written is read")
        env.prove(c.call("st_read", s, *K(c, b"k"), *K(c, b"sd"), out) == 13, "not with another schema")
        env.prove(c.call("st_read", s, *K(c, b"x"), *K(c, b"sc"), out) == 10, "nothing else is there")
        env.prove(env.all(c.call("has", s, *K(c, b"k")) == 1, c.call("has", s, *K(c, b"k.schema")) == 1, c.call("has", s, *K(c, b"x")) == 0), "existence")
        c.close()
    return scenario


def directories(unit):
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        d, e, b = c.call("dir", s, *K(c, b"d")), c.call("dir", s, *K(c, b"e")), env.bytes("b", 3)
        where = env.int_in("where", 0, 3).__index__()
        names = [(s, b"k"), (d, b"k"), (s, b"d/k"), (c.call("dir", d, *K(c, b"f")), b"k")]
        st, key = names[where]
        c.call("st_write", st, *K(c, key), *K(c, b"sc"), *K(c, b))
        out = c.buf(16)
        env.observe("w", where)
        for st, key, at in ((s, b"k", (0,)), (d, b"k", (1, 2)), (s, b"d/k", (1, 2)), (e, b"k", ()), (s, b"d/f/k", (3,)), (d, b"f/k", (3,)),
                            (c.call("dir", s, *K(c, b"d")), b"k", (1, 2))):
            got = c.call("st_read", st, *K(c, key), *K(c, b"sc"), out)
            env.prove(c.call("has", st, *K(c, key)) == int(where in at), "existence follows the path")
            env.prove(got == (1 if where in at else 10), "a resource is found exactly at its path")
            if got == 1:
                env.prove(same(env, c.read(u64(c, out, 0), 3), b), "with its content")
        c.close()
    return scenario


def stable(unit, many):
    """data handed out stays valid and unchanged whatever is read or written later"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        a = env.bytes("a", 2)
        out = c.buf(16)
        c.call("st_write", s, *K(c, b"k0"), *K(c, b"sc"), *K(c, a))
        c.call("st_read", s, *K(c, b"k0"), *K(c, b"sc"), out)
        p = u64(c, out, 0)
        for i in range(1, many):
            op = env.int_in("op%d" % i, 0, 3).__index__()
            if op == 0:
                c.call("st_write", s, *K(c, b"k%d" % i), *K(c, b"sc"), *K(c, [i] * i))
            elif op == 1:
                c.call("st_read", s, *K(c, b"k%d" % (i - 1)), *K(c, b"sc"), out)
            elif op == 2:
                c.call("st_write", s, *K(c, b"k0"), *K(c, b"sc"), *K(c, [9] * i))
            else:
                c.call("st_read", c.call("dir", s, *K(c, b"d")), *K(c, b"k0"), *K(c, b"sc"), out)
            env.prove(same(env, c.read(p, 2), a), "data handed out stays as it was")
        env.observe("x", c.read(p, 2))
        c.close()
    return scenario


def external(unit, n, steps):
    size = SIZE[n]
    over = n == "R"

    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        e = c.call("ext_" + n, s, *K(c, b"k"), *K(c, b"sc"))
        data = []
        k = env.int_in("count", 0, steps).__index__()
        for i in range(k):
            p = c.call("ext_grow_" + n, e)
            env.prove(same(env, c.read(p, size), [0] * size), "new items are zero")
            v = env.bytes("v%d" % i, size)
            c.write(p, list(v))
            data += list(v)
            env.prove(c.call("ext_len_" + n, e) == i + 1, "size of an external vector")
        out = c.buf(16)
        env.prove(c.call("ext_close_" + n, e, out) == 1, "closing succeeds")
        if over and not k:
            data = [0] * size
        p, m = u64(c, out, 0), u64(c, out, 1)
        base = stored(env, c, s, b"k", data, b"sc", "external vector")
        env.prove(m == max(k - over, 0), "the items returned are all items")
        env.prove(m == 0 or p == base, "the items returned are the stored ones")
        env.observe("data", c.read(base, len(data)) if data else 0)
        c.close()
    return scenario


def build():
    u = RustUnit("R04", "res", SCHEMA, BODY)
    f = RustUnit("R04", "flush", SCHEMA, BODY, buffer_limit=7)
    build_rust([u, f])
    hs = []
    B = "memory storage; "
    for size in tier((0, 15, 16, 17, 19), tuple(range(26))):
        hs.append(PyHarness("read/%d" % size, reading(u, size, b"sc"), [], B + "every content of %d stored bytes and of the stored schema, present or not" % size,
                            validate=5, weight=4))
    for n in (0, 1, 3):
        hs.append(PyHarness("schema/%d" % n, lengths(u, n), [], B + "every stored schema of 0..3 bytes", validate=5, weight=3))
    for k in tier((0, 1, 3), (0, 1, 2, 5, 8)):
        hs.append(PyHarness("write/%d" % k, writing(u, k), [], B + "every payload of %d bytes, also over previous content" % k, validate=4))
    hs.append(PyHarness("directories", directories(u), [], B + "nested storages", validate=4))
    hs.append(PyHarness("stable", stable(u, tier(4, 5)), [], B + "every sequence of up to 3 (4) later operations", validate=4))
    for n in SIZE:
        for w, un in (("", u), ("/flush", f)):
            k = tier(5, 7) if w else 3
            hs.append(PyHarness("external%s/%s" % (w, n), external(un, n, k), [], B + "0..%d items of every content%s" %
                                (k, ", buffers flushed beyond 7 bytes" if w else ""), validate=4))
    return hs


if __name__ == "__main__":
    main("R04", both(build), RUST_ASSUME, ["file and tar storages (R07)", "streams which fail", "concurrent access"])
