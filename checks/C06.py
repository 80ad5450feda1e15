"""C06: C++ resources: framing, schema check, vectors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *

SCHEMA = """namespace n { struct S { a : u32 : 21; b : i16 : 13; } struct T { c : u8; } struct R { @range( r ) f : u16 : 15; g : u8 : 3; }
 archive Arc { s : vector< S >; t : vector< T >; m : multivector< 9, T, S >; q : vector< R >; } }"""
SIZE = {"S": 5, "T": 1, "R": 3}

BODY = '''
#define protected public
#include <flatdata/MemoryResourceStorage.h>
using namespace flatdata;
typedef MemoryResourceStorage St;
API storage() { return (U)St::create().release(); }
API put(St* s, const char* k, P p, U n) { s->assign_value(k, MemoryDescriptor(p, n)); return 0; }
API raw(St* s, const char* k, U* out) { auto r = s->read_resource(k); out[0] = (U)r.data(); out[1] = r.size_in_bytes(); return (bool)r; }
API schema_of(St* s, const char* k, U* out) { auto r = s->read_schema(k); out[0] = (U)r.data(); out[1] = r.size_in_bytes(); return (bool)r; }
API has(St* s, const char* k) { return s->exists(k); }
API dir(St* s, const char* k) { return (U)s->directory(k).release(); }
API mkdir_(St* s, const char* k) { return (U)s->create_directory(k).release(); }
static U view(const unsigned char* p, size_t n, U* out) { out[0] = (U)p; out[1] = n; return 1; }
API read_raw(St* s, const char* k, const char* sc, U* out) { auto r = s->read<MemoryDescriptor>(k, sc); return r && *r ? view(r->data(), r->size_in_bytes(), out) : 0; }
API write_raw(St* s, const char* k, const char* sc, P p, U n) { return s->write<MemoryDescriptor>(k, sc, MemoryDescriptor(p, n)); }
''' + "".join('''
API read_one_%(n)s(St* s, const char* k, const char* sc, U* out) { auto r = s->read<n::%(n)s>(k, sc); return r && *r ? view(r->data(), r->size_in_bytes(), out) : 0; }
API write_one_%(n)s(St* s, const char* k, const char* sc, P p) { return s->write<n::%(n)s>(k, sc, n::%(n)s{p}); }
''' % dict(n=n) for n in "ST") + "".join('''
API read_vec_%(n)s(St* s, const char* k, const char* sc, U* out) { auto r = s->read<ArrayView<n::%(n)s>>(k, sc); return r && *r ? view(r->data(), r->size(), out) : 0; }
API write_vec_%(n)s(St* s, const char* k, const char* sc, P p, P e) { return s->write<ArrayView<n::%(n)s>>(k, sc, ArrayView<n::%(n)s>(p, e)); }
typedef ExternalVector<n::%(n)s> E%(n)s;
API ext_%(n)s(St* s, const char* k, const char* sc) { return (U)new E%(n)s(s->create_external_vector<n::%(n)s>(k, sc)); }
API ext_grow_%(n)s(E%(n)s* e) { return (U)e->grow().data(); }
API ext_size_%(n)s(E%(n)s* e) { return e->size() * 2 + e->empty(); }
API ext_close_%(n)s(E%(n)s* e, U* out) { auto r = e->close(); return r ? view(r.data(), r.size(), out) : 0; }
typedef Vector<n::%(n)s> V%(n)s;
API v_new_%(n)s(U k) { return (U)new V%(n)s(k); }
API v_resize_%(n)s(V%(n)s* v, U k) { v->resize(k); return 0; }
API v_reserve_%(n)s(V%(n)s* v, U k) { v->reserve(k); return 0; }
API v_grow_%(n)s(V%(n)s* v) { return (U)v->grow().data(); }
API v_pop_%(n)s(V%(n)s* v) { v->pop_back(); return 0; }
API v_size_%(n)s(V%(n)s* v) { return v->size(); }
API v_bytes_%(n)s(V%(n)s* v) { return v->size_in_bytes(); }
API v_data_%(n)s(V%(n)s* v) { return (U)v->data(); }
API v_at_%(n)s(V%(n)s* v, U i) { return (U)(*v)[i].data(); }
API v_cat_%(n)s(const V%(n)s* v, U i) { return (U)(*v)[i].data(); }
API v_front_%(n)s(V%(n)s* v) { return (U)v->front().data(); }
API v_back_%(n)s(const V%(n)s* v) { return (U)v->back().data(); }
API v_view_%(n)s(const V%(n)s* v, U* out) { ArrayView<n::%(n)s> r = *v; return view(r.data(), r.size(), out) + r.size_in_bytes() * 0; }
API v_copy_%(n)s(const V%(n)s* v) { return (U)new V%(n)s(*v); }
API v_set_%(n)s(M d, P s) { flatdata::copy_struct(n::%(n)sMutator{d}, n::%(n)s{s}); return 0; }
''' % dict(n=n) for n in SIZE) + '''
typedef MultiArrayView<n::_builtin::multivector::IndexType9, n::T, n::S> Mv;
API read_multi(St* s, const char* k, const char* sc, U* out) { auto r = s->read<Mv>(k, sc); if (!r || !*r) return 0; out[0] = r->size(); return 1; }
'''


def u64(c, p, i):
    b = c.read(p + 8 * i, 8)
    v = 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def same(env, a, b):
    return env.all(*[x == y for x, y in zip(a, b)])


def number(b):
    v = 0
    for k in range(len(b)):
        v = v + (b[k] << (8 * k))
    return v


def stored(env, c, s, key, payload, schema, what):
    """returns the address of the payload"""
    out = c.buf(16)
    framed = le(len(payload), 8) + list(payload) + [0] * 8
    c.call("raw", s, c.buf(key + b"\0"), out)
    p, n = u64(c, out, 0), u64(c, out, 1)
    env.prove(n == len(framed), what + ": stored size")
    env.prove(same(env, c.read(p, len(framed)), framed), what + ": stored bytes")
    for fn, k in (("raw", key + b".schema"), ("schema_of", key)):
        env.prove(c.call(fn, s, c.buf(k + b"\0"), out) == 1, what + ": schema stored")
        q, n = u64(c, out, 0), u64(c, out, 1)
        env.prove(n == len(schema), what + ": stored schema length")
        env.prove(same(env, c.read(q, len(schema)), list(schema)), what + ": stored schema")
    return p + 8


KINDS = ["raw", "one_S", "one_T", "vec_S", "vec_T", "vec_R", "multi"]


def reading(unit, kind, size, text, more=0):
    """any bytes as data and as schema; the stored schema is `more` bytes longer than the expected one"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        want = text[:2]
        data, sch = env.bytes("data", size), env.bytes("sch", len(text) + more)
        for i, ch in enumerate(text):      # schemas differ in at most two characters chosen freely
            if i < len(sch) and i not in (1, len(text) - 1):
                env.assume(sch[i] == ch)
        have_data, have_schema = env.boolean("have_data"), env.boolean("have_schema")
        if have_data:
            c.call("put", s, c.buf(b"k\0"), c.buf(data if size else b"\0"), size)
        if have_schema:
            c.call("put", s, c.buf(b"k.schema\0"), c.buf(sch if len(sch) else b"\0"), len(sch))
        if kind == "multi":
            idx = le(4, 8) + [0, 0, 3, 0] + [0] * 8
            c.call("put", s, c.buf(b"k_index\0"), c.buf(idx), len(idx))
            it = b"index(%s)" % bytes(text)
            c.call("put", s, c.buf(b"k_index.schema\0"), c.buf(it), len(it))
        out = c.buf(16)
        got = c.call("read_" + kind, s, c.buf(b"k\0"), c.buf(text + b"\0"), out)
        env.observe("got", got)
        ok = env.all(have_data, have_schema, size >= 16, more == 0, same(env, sch, text) if 0 not in text else False)
        if size >= 16:
            ok = env.all(ok, number(data[:8]) == size - 16)
            if kind[:3] == "one":
                ok = env.all(ok, size - 16 == SIZE[kind[-1]])
        env.prove((got == 1) == ok, "%s of %d bytes opens exactly if intact" % (kind, size))
        if got == 1:
            c.call("raw", s, c.buf(b"k\0"), env_out(c, out))
            base = u64(c, out, 0)
            c.call("read_" + kind, s, c.buf(b"k\0"), c.buf(text + b"\0"), out)
            p, n = u64(c, out, 0), u64(c, out, 1)
            if kind == "multi":
                env.prove(p == 1, "number of lists")
            else:
                env.prove(p == base + 8, "%s starts at its payload" % kind)
                k = size - 16
                if kind[:3] == "vec":
                    k = k // SIZE[kind[-1]]
                    k = max(k - (kind[-1] == "R"), 0)
                env.prove(n == k, "%s covers its payload" % kind)
        c.close()
    return scenario


def env_out(c, out):
    return out


def index_reading(unit, size):
    """any bytes as index of a multivector"""
    text = b"sc"

    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        data = env.bytes("idx", size)
        tail = env.bytes("sch", 1)
        have = [env.boolean("have%d" % i) for i in range(2)]
        d = le(2, 8) + [1, 7] + [0] * 8
        c.call("put", s, c.buf(b"k\0"), c.buf(d), len(d))
        c.call("put", s, c.buf(b"k.schema\0"), c.buf(text), len(text))
        if have[0]:
            c.call("put", s, c.buf(b"k_index\0"), c.buf(data if size else b"\0"), size)
        if have[1]:
            it = list(b"index(sc") + list(tail)
            c.call("put", s, c.buf(b"k_index.schema\0"), c.buf(it), len(it))
        out = c.buf(16)
        got = c.call("read_multi", s, c.buf(b"k\0"), c.buf(text + b"\0"), out)
        env.observe("got", got)
        ok = env.all(have[0], have[1], size >= 16, tail[0] == ord(")"))
        if size >= 16:
            ok = env.all(ok, number(data[:8]) == size - 16)
        env.prove((got == 1) == ok, "a multivector opens exactly if its index is intact")
        if got == 1:
            env.prove(u64(c, out, 0) == max((size - 16) // 2 - 1, 0), "number of lists")
        c.close()
    return scenario


def writing(unit, kind, count):
    """whatever is written is stored framed and reads back"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        elem = {"raw": 1}.get(kind, SIZE.get(kind[-1]))
        n = count * elem
        data = env.bytes("data", n + 8)
        sch = env.bytes("sch", 2)
        for x in sch:
            env.assume(x != 0)
        p, text, key = c.buf(data), c.buf(list(sch) + [0]), c.buf(b"k\0")
        args = {"raw": (p, n), "one": (p,), "vec": (p, p + n)}[kind[:3]]
        env.prove(c.call("write_" + kind, s, key, text, *args) == 1, "writing %s succeeds" % kind)
        lone = kind == "vec_R" and count == 1        # no items: writing the closing bound is optional
        base = 0 if lone else stored(env, c, s, b"k", list(data[:n]), list(sch), "written %s" % kind)
        out = c.buf(16)
        env.prove(c.call("read_" + kind, s, key, text, out) == 1, "written %s opens" % kind)
        env.observe("n", u64(c, out, 1))
        env.prove(lone or u64(c, out, 0) == base, "written %s: data" % kind)
        env.prove(u64(c, out, 1) == (n if kind[:3] != "vec" else max(count - (kind[-1] == "R"), 0)), "written %s: size" % kind)
        other = [sch[0], (sch[1] ^ 1)]
        env.prove(c.call("read_" + kind, s, key, c.buf([_cell(x) for x in other] + [0]), out) * (other[1] != 0) == 0,
                  "written %s does not open with another schema" % kind)
        env.prove(c.call("read_" + kind, s, c.buf(b"x\0"), text, out) == 0, "nothing else opens")
        c.close()
    return scenario


def _cell(x):
    return x


def external(unit, n, steps):
    size = SIZE[n]
    over = n == "R"

    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        e = c.call("ext_" + n, s, c.buf(b"k\0"), c.buf(b"sc\0"))
        env.prove(c.call("ext_size_" + n, e) == 1, "a new external vector is empty")
        data, k = [], 0
        k = env.int_in("count", 0, steps).__index__()
        for i in range(k):
            p = c.call("ext_grow_" + n, e)
            env.prove(env.all(*[x == 0 for x in c.read(p, size + 8)]), "new items are zero, padding included")
            v = env.bytes("v%d" % i, size + 8)
            c.call("v_set_" + n, p, c.buf(v))
            data += list(v[:size])
            env.prove(c.call("ext_size_" + n, e) == 2 * (i + 1), "size of an external vector")
        out = c.buf(16)
        ok = c.call("ext_close_" + n, e, out)
        env.prove(ok == 1, "closing succeeds")
        p, m = u64(c, out, 0), u64(c, out, 1)
        base = stored(env, c, s, b"k", data, b"sc", "external vector")
        env.prove(p == base, "the view returned shows the stored data")
        env.prove(m == max(k - over, 0), "the view returned has all items")
        env.observe("data", c.read(base, len(data) + 8))
        env.prove(c.call("read_vec_" + n, s, c.buf(b"k\0"), c.buf(b"sc\0"), out) == 1, "the resource opens")
        env.prove(u64(c, out, 1) == max(k - over, 0), "the resource has all items")
        env.prove(c.call("ext_close_" + n, e, out) == 0, "closing a second time fails")
        stored(env, c, s, b"k", data, b"sc", "external vector closed twice")
        c.close()
    return scenario


def vectors(unit, n, steps):
    """operation sequences on an owning vector against a list of items"""
    size = SIZE[n]
    over = n == "R"

    def scenario(env):
        c = unit.session(env)
        k = env.int_in("start", 0, 2).__index__()
        v = c.call("v_new_" + n, k)
        items = [[0] * size for _ in range(k)]
        twin = None
        for i in range(steps):
            op = env.int_in("op%d" % i, 0, 5).__index__()
            if op == 0:
                p = c.call("v_grow_" + n, v)
                env.prove(p == c.call("v_data_" + n, v) + size * len(items), "the new item is the last one")
                items.append([0] * size)
            elif op == 1:
                env.assume(len(items) > 0)
                c.call("v_pop_" + n, v)
                items.pop()
            elif op == 2:
                m = env.int_in("size%d" % i, 0, 3).__index__()
                c.call("v_resize_" + n, v, m)
                items = items[:m] + [[0] * size for _ in range(m - len(items))]
            elif op == 3:
                c.call("v_reserve_" + n, v, env.int_in("size%d" % i, 0, 4).__index__())
            elif op == 4:
                twin = (v, [list(x) for x in items])
                v = c.call("v_copy_" + n, v)
            else:
                env.assume(len(items) > 0)
                j = env.int_in("at%d" % i, 0, len(items) - 1).__index__()
                val = env.bytes("val%d" % i, size + 8)
                c.call("v_set_" + n, c.call("v_at_" + n, v, j), c.buf(val))
                items[j] = list(val[:size])
        for vec, want in [(v, items)] + ([twin] if twin else []):
            env.prove(c.call("v_size_" + n, vec) == len(want), "size")
            env.prove(c.call("v_bytes_" + n, vec) == size * len(want), "size in bytes")
            p = c.call("v_data_" + n, vec)
            flat = [b for x in want for b in x]
            got = c.read(p, len(flat) + 8)
            env.observe("bytes", got)
            env.prove(same(env, got[:len(flat)], flat), "contents after the operations")
            for j in range(len(want)):
                env.prove(c.call("v_at_" + n, vec, j) == p + j * size, "item %d" % j)
                env.prove(c.call("v_cat_" + n, vec, j) == p + j * size, "constant item %d" % j)
            if want:
                env.prove(c.call("v_front_" + n, vec) == p, "front")
                env.prove(c.call("v_back_" + n, vec) == p + size * (len(want) - 1), "back")
            out = c.buf(16)
            c.call("v_view_" + n, vec, out)
            env.prove(u64(c, out, 0) == p, "view data")
            env.prove(u64(c, out, 1) == max(len(want) - over, 0), "view size")
        c.close()
    return scenario


def presence(unit):
    """existence of resources and directories; paths of nested storages"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        a = env.boolean("a")
        b = env.boolean("b")
        d = env.boolean("d")
        K = lambda t: c.buf(t + b"\0")
        if a:
            c.call("write_raw", s, K(b"a"), K(b"x"), c.buf(b"\1"), 1)
        sub = c.call("dir", s, K(b"d"))
        env.prove(sub == 0, "a directory which was not created does not open")
        if d:
            sub = c.call("mkdir_", s, K(b"d"))
            if b:
                c.call("write_raw", sub, K(b"b"), K(b"y"), c.buf(b"\2\3"), 2)
            env.prove(c.call("has", sub, K(b"b")) == b, "resource of the directory exists")
            env.prove(c.call("has", sub, K(b"a")) == 0, "resources of the parent are not in the directory")
            env.prove(c.call("dir", s, K(b"d")) != 0, "a created directory opens")
            out = c.buf(16)
            again = c.call("dir", s, K(b"d"))
            env.prove(c.call("read_raw", again, K(b"b"), K(b"y"), out) == b, "resource read through the directory")
            env.prove(c.call("read_raw", s, K(b"b"), K(b"y"), out) == 0, "not through the parent")
            env.prove(c.call("read_raw", s, K(b"d/b"), K(b"y"), out) == b, "the path of the resource")
        env.prove(c.call("has", s, K(b"a")) == a, "existence of a resource")
        env.prove(c.call("has", s, K(b"b")) == 0, "resources of a directory are not in the parent")
        env.prove(c.call("has", s, K(b"d")) == (b if d else 0), "a directory exists with its content")
        env.observe("a", a)
        c.close()
    return scenario


def build():
    u = cpp_unit("C06", "res", SCHEMA, BODY, sources=["ResourceStorage.cpp"])
    f = cpp_unit("C06", "flush", SCHEMA, BODY, sources=["ResourceStorage.cpp"], buffer_limit=15)
    build_units([u, f])
    hs = []
    B = "structures of 1, 3 (with range) and 5 bytes; "
    for kind in KINDS:
        for size in [0, 1, 7, 8, 15, 16, 17, 20, 21, 22, 26] + tier([], [23, 24, 25, 27, 31, 36]):
            hs.append(PyHarness("read/%s/%d" % (kind, size), reading(u, kind, size, b"s3c"), [],
                                B + "every content of resources of 0..26 (36) bytes, schemas differing anywhere in two characters", validate=3))
        for more in (-3, -1, 1, 2):
            hs.append(PyHarness("read/%s/longer%d" % (kind, more), reading(u, kind, 21, b"s3c", more), [],
                                B + "stored schemas shorter and longer than the expected one, any bytes at the end", validate=3))
        hs.append(PyHarness("read/%s/noschema" % kind, reading(u, kind, 21, b""), [], B + "empty schema", validate=3))
    for size in (0, 8, 15, 16, 17, 18, 20, 23):
        hs.append(PyHarness("index/%d" % size, index_reading(u, size), [], B + "every content of multivector indexes of 0..23 bytes", validate=3))
    for kind in KINDS[:-1]:
        for count in (1,) if kind[:3] == "one" else range(tier(4, 7)):
            hs.append(PyHarness("write/%s/%d" % (kind, count), writing(u, kind, count), [],
                                B + "every content of 0..3 (6) items, every schema of two characters", validate=3))
    for n in SIZE:
        hs.append(PyHarness("external/%s" % n, external(u, n, tier(4, 7)), [], B + "0..4 (7) items with every content", validate=4))
        hs.append(PyHarness("flush/%s" % n, external(f, n, tier(9, 14)), [], B + "0..9 (14) items, write buffer flushed beyond 15 bytes", validate=4))
        hs.append(PyHarness("vector/%s" % n, vectors(u, n, tier(3, 4)), [], B + "every sequence of 3 (4) operations on vectors of 0..5 items", validate=6,
                            weight=10))
    hs.append(PyHarness("presence", presence(u), [], B + "every combination of present resources", validate=8))
    return hs


if __name__ == "__main__":
    main("C06", build,
         ["clang 18 -O1 IR of the headers and of the generated code is the code under test; "
          "string streams of libstdc++ are modelled; sanitizer builds replay"],
         ["failing streams", "storages other than in memory (C11)", "rewriting a resource which was read before", "vector payloads which are no multiple of "
          "the item size (the trailing bytes are ignored)"])
