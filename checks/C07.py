"""C07: C++ archives open exactly if all mandatory resources are intact; builders."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *

SCHEMA = """namespace n { struct S { a : u16 : 11; } struct F { pad : u8 : 3; v : u8 : 2; ov : u8 : 1; m : u16 : 2; om : u8 : 1; d : u8 : 3; od : u8 : 1; }
 archive Sub { x : S; @optional y : vector< S >; }
 archive Arc {
  i : S; @optional oi : S;
  v : vector< S >; @optional ov : vector< S >;
  @explicit_reference( F.v, v ) @explicit_reference( F.ov, ov ) @explicit_reference( F.m, m ) @explicit_reference( F.om, om )
  @explicit_reference( F.d, d ) @explicit_reference( F.od, od )
  f : vector< F >;
  m : multivector< 9, S >; @optional om : multivector< 9, S >;
  d : raw_data; @optional od : raw_data;
  sub : archive Sub; @optional osub : archive Sub;
 } }"""
LIMIT = {"v": 4, "ov": 2, "m": 4, "om": 2, "d": 8, "od": 2}
ELEM = {"v": 2, "ov": 2, "f": 2, "d": 1, "od": 1, "i": 2, "oi": 2}
SIMPLE = ["i", "oi", "v", "ov", "f", "m", "om", "d", "od"]
OPT = {"oi", "ov", "om", "od", "osub"}

BODY = '''
#define protected public
#include <flatdata/MemoryResourceStorage.h>
using namespace flatdata;
typedef MemoryResourceStorage St;
typedef std::shared_ptr<ResourceStorage> Sp;
API storage() { return (U)new Sp(St::create().release()); }
API nostorage() { return (U)new Sp(); }
static St* get(Sp* s) { return static_cast<St*>(s->get()); }
API put(Sp* s, const char* k, P p, U n) { get(s)->assign_value(k, MemoryDescriptor(p, n)); return 0; }
API mkdir_(Sp* s, const char* k) { get(s)->create_directory(k); return 0; }
API raw(Sp* s, const char* k, U* out) { auto r = get(s)->read_resource(k); out[0] = (U)r.data(); out[1] = r.size_in_bytes(); return (bool)r; }
static U view(const unsigned char* p, size_t n, U* out) { out[0] = (U)p; out[1] = n; return 1; }
template<class T> bool valid(const T& t) { return (bool)t; }
template<class T> bool valid(const boost::optional<T>& t) { return t && *t; }
template<class T> U hollow(const T& t) { return 0; }
template<class T> U hollow(const boost::optional<T>& t) { return t ? 2 : 0; }   /* engaged, but nothing is there */
template<class T> const T& val(const T& t) { return t; }
template<class T> const T& val(const boost::optional<T>& t) { return *t; }
API a_open(Sp* s) { return (U)new n::Arc(n::Arc::open(*s)); }
API fresh() { return (U)new n::Arc(); }
API is_open(n::Arc* a) { return a->is_open() + 2 * (bool)*a; }
API name_(n::Arc* a) { return strcmp(a->name(), "Arc") == 0 && strcmp(n::Arc::name_definition(), "Arc") == 0; }
API schema_(n::Arc* a) { return (U)a->schema(); }
API schema_def() { return (U)n::Arc::schema_definition(); }
API sub_schema() { return (U)n::Sub::schema_definition(); }
''' + "".join('''
API rs_%(r)s() { return (U)n::internal::Arc__%(r)s__schema__; }
API get_%(r)s(n::Arc* a, U* out)  { if (!valid(a->%(r)s())) return hollow(a->%(r)s()); auto r = val(a->%(r)s()); return view(r.data(), r.%(sz)s(), out); }
''' % dict(r=r, sz="size_in_bytes" if r[-1] in "i" else "size") for r in SIMPLE if r[-1] != "m") + "".join('''
API rs_%(r)s() { return (U)n::internal::Arc__%(r)s__schema__; }
API get_%(r)s(n::Arc* a, U* out) { if (!valid(a->%(r)s())) return hollow(a->%(r)s()); auto r = val(a->%(r)s()); out[0] = 0; out[1] = r.size(); return 1; }
''' % dict(r=r) for r in ("m", "om")) + "".join('''
API get_%(r)s(n::Arc* a, U* out) { if (!valid(a->%(r)s())) return hollow(a->%(r)s()); const auto& s = val(a->%(r)s()); view(s.x().data(), s.x().size_in_bytes(), out); out[2] = valid(s.y()) ? val(s.y()).size() : 99; return 1; }
''' % dict(r=r) for r in ("sub", "osub")) + '''
API rs_x() { return (U)n::internal::Sub__x__schema__; }
API rs_y() { return (U)n::internal::Sub__y__schema__; }
typedef n::ArcBuilder B;
API b_open(Sp* s) { return (U)new B(B::open(*s)); }
API b_fresh() { return (U)new B(); }
API b_is_open(B* b) { return b->is_open() + 2 * (bool)*b; }
API b_schema(B* b) { return strcmp(b->schema(), B::schema_definition()) == 0 && strcmp(b->schema(), n::Arc::schema_definition()) == 0 && strcmp(b->name(), "Arc") == 0; }
API set_i(B* b, P p) { return b->set_i(n::S{p}); }
API set_oi(B* b, P p) { return b->set_oi(n::S{p}); }
API set_d(B* b, P p, U k) { return b->set_d(MemoryDescriptor(p, k)); }
API set_od(B* b, P p, U k) { return b->set_od(MemoryDescriptor(p, k)); }
API set_v(B* b, P p, P e) { return b->set_v(ArrayView<n::S>(p, e)); }
API set_ov(B* b, P p, P e) { return b->set_ov(ArrayView<n::S>(p, e)); }
API set_f(B* b, P p, P e) { return b->set_f(ArrayView<n::F>(p, e)); }
API start_v(B* b, P p, P e) { auto x = b->start_v(); for (; p != e; p += 2) flatdata::copy_struct(x.grow(), n::S{p}); return (bool)x.close(); }
API start_m(B* b, P p, P e) { auto x = b->start_m(); for (; p != e; p += 2) { auto l = x.grow(); flatdata::copy_struct(l.add<n::S>(), n::S{p}); } return (bool)x.close(); }
API sub_(B* b) { return (U)&b->sub(); }
API osub_(B* b) { return (U)&b->osub(); }
API sub_open(n::SubBuilder* b) { return b->is_open(); }
API sub_x(n::SubBuilder* b, P p) { return b->set_x(n::S{p}); }
API sub_y(n::SubBuilder* b, P p, P e) { return b->set_y(ArrayView<n::S>(p, e)); }
'''


def u64(c, p, i):
    b = c.read(p + 8 * i, 8)
    v = 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def le(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def same(env, a, b):
    return env.all(*[x == y for x, y in zip(a, b)])


def text(c, p):
    out = []
    while True:
        b = c.read(p, 1)[0]
        if b == 0:
            return out
        out.append(int(b))
        p += 1


def put(c, s, key, payload, schema, defect=0):
    """defect: 0 intact, 1 absent, 2 schema differs, 3 size differs, 4 no schema, 5 too short"""
    K = lambda t: c.buf(t + b"\0")
    if defect != 1:
        framed = le(len(payload) + (defect == 3), 8) + list(payload) + [0] * 8
        if defect == 5:
            framed = framed[:12]
        c.call("put", s, K(key), c.buf(framed), len(framed))
        if defect != 4:
            sch = list(schema)
            if defect == 2:
                sch[len(sch) // 2] ^= 1
            c.call("put", s, K(key + b".schema"), c.buf(sch), len(sch))


def fill(c, s, states, counts, contents=None):
    """assigns every resource; states: name -> defect"""
    sch = lambda r: text(c, c.call("rs_" + r))
    put(c, s, b"Arc.archive", [], text(c, c.call("schema_def")), states.get("signature", 0))
    for r in SIMPLE:
        k = counts.get(r, 1)
        if r in ("m", "om"):
            data = [b for j in range(k) for b in (0, j, 1)]
            index = [b for j in range(k + 1) for b in le(3 * j, 2)]
            st = states.get(r, 0)
            put(c, s, r.encode(), data, sch(r), st if st < 10 else 0)
            put(c, s, r.encode() + b"_index", index, [ord(x) for x in "index("] + sch(r) + [41], st - 10 if st > 10 else 0 if st < 1 else 0)
        else:
            data = contents[r] if contents and r in contents else [7] * (k * ELEM[r])
            put(c, s, r.encode(), data, sch(r), states.get(r, 0))
    for r in ("sub", "osub"):
        st = states.get(r, 0)
        if st == 1:
            continue
        c.call("mkdir_", s, c.buf(r.encode() + b"\0"))
        put(c, s, r.encode() + b"/Sub.archive", [], text(c, c.call("sub_schema")), st if st < 10 else 0)
        put(c, s, r.encode() + b"/x", [1, 2], text(c, c.call("rs_x")), st - 10 if 10 <= st < 20 else 0)
        put(c, s, r.encode() + b"/y", [1, 2, 3, 4], text(c, c.call("rs_y")), st - 20 if 20 <= st < 30 else 0)


def states_of(r):
    if r in ("m", "om"):
        return [0, 1, 2, 3, 4, 5, 11, 12, 13, 14, 15]
    if r in ("sub", "osub"):
        return [0, 1, 2, 3, 4, 5, 11, 12, 13, 21, 22, 23]
    return [0, 1, 2, 3, 4, 5]


def opening(unit, vary, most):
    """each resource of `vary` in any state with any number of items; all others intact"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        states, counts = {}, {}
        for r in vary:
            opts = states_of(r)
            states[r] = opts[env.int_in("state_" + r, 0, min(len(opts) - 1, most)).__index__()]
            if r in LIMIT and states[r] == 0:
                counts[r] = env.int_in("count_" + r, 0, LIMIT[r] + 1).__index__()
        fill(c, s, states, counts)
        a = c.call("a_open", s)
        want = True
        for r in SIMPLE + ["signature", "sub", "osub"]:
            bad = states.get(r, 0) != 0 and not (r in ("sub", "osub") and states[r] > 20)
            if bad and r not in OPT:
                want = False
            if not bad and counts.get(r, 1) > LIMIT.get(r, 1 << 70):
                want = False
        env.observe("open", c.call("is_open", a))
        env.prove(c.call("is_open", a) == (3 if want else 0), "the archive is open exactly if its resources are intact and within limits")
        env.prove(c.call("name_", a) == 1, "name of the archive")
        env.prove(c.call("schema_", a) == c.call("schema_def"), "schema of the archive")
        out = c.buf(24)
        for r in SIMPLE + ["sub", "osub"]:
            bad = states.get(r, 0) != 0 and not (r in ("sub", "osub") and states[r] > 20)
            got = c.call("get_" + r, a, out)
            if want:
                env.prove(got == (0 if bad else 1), "%s is available exactly if it is intact" % r)
            if got == 1 and r in SIMPLE:
                k = counts.get(r, 1)
                env.prove(u64(c, out, 1) == (2 if r in ("i", "oi") else k), "size of %s" % r)
                if r not in ("m", "om"):
                    p = u64(c, out, 0)
                    c.call("raw", s, c.buf(r.encode() + b"\0"), out)
                    env.prove(p == u64(c, out, 0) + 8, "data of %s" % r)
            elif got == 1:
                env.prove(u64(c, out, 2) == (99 if states.get(r, 0) > 20 else 2), "optional resource of %s" % r)
        c.close()
    return scenario


def empty(unit):
    def scenario(env):
        c = unit.session(env)
        for a in (c.call("fresh"), c.call("a_open", c.call("nostorage")), c.call("a_open", c.call("storage"))):
            env.prove(c.call("is_open", a) == 0, "an archive without data is not open")
        env.prove(c.call("b_is_open", c.call("b_fresh")) == 0, "a builder without storage is not open")
        env.prove(throws(lambda: c.call("set_i", c.call("b_fresh"), c.buf([0] * 10))) == 1, "a builder without storage cannot write")
        env.observe("x", env.int_in("x", 0, 1))
        c.close()
    return scenario


def building(unit, k):
    """an archive written by its builder opens and holds the data; with resources left out it does not open"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        b = c.call("b_open", s)
        env.prove(c.call("b_is_open", b) == 3, "the builder is open")
        env.prove(c.call("b_schema", b) == 1, "schema and name of the builder")
        data = env.bytes("data", 2 * k + 8)
        p = c.buf(data)
        skip = env.int_in("skip", 0, 13).__index__()
        incremental = env.boolean("incremental")
        steps = [("set_i", (p,)), ("start_v" if incremental else "set_v", (p, p + 2 * k)), ("set_f", (p, p + 2 * k)),
                 ("start_m", (p, p + 2 * k)), ("set_d", (p, 2 * k)), ("set_oi", (p,)), ("set_ov", (p, p + 2 * min(k, 2))),
                 ("set_od", (p, min(2 * k, 2)))]
        for j, (fn, args) in enumerate(steps):
            if j != skip:
                env.prove(c.call(fn, b, *args) == 1, "%s succeeds" % fn)
        for j, fn in ((8, "sub_"), (9, "osub_")):
            if j == skip:
                continue
            sub = c.call(fn, b)
            env.prove(c.call("sub_open", sub) == 1, "builder of the subarchive is open")
            if skip != j + 2:
                env.prove(c.call("sub_x", sub, p) == 1, "writing into a subarchive succeeds")
            env.prove(c.call("sub_y", c.call(fn, b), p, p + 2 * k) == 1, "writing into a subarchive succeeds")
        a = c.call("a_open", s)
        want = skip not in (0, 1, 2, 3, 4, 8, 10)
        env.observe("open", c.call("is_open", a))
        env.prove(c.call("is_open", a) == (3 if want else 0), "the archive built is open exactly if nothing mandatory was left out")
        out = c.buf(24)
        for j, r, n, sz in ((0, "i", 2, 2), (1, "v", 2 * k, k), (2, "f", 2 * k, k), (4, "d", 2 * k, 2 * k), (5, "oi", 2, 2),
                            (6, "ov", 2 * min(k, 2), min(k, 2)), (7, "od", min(2 * k, 2), min(2 * k, 2))):
            got = c.call("get_" + r, a, out)
            if want:
                env.prove(got == int(j != skip), "%s is there exactly if written" % r)
                if got:
                    env.prove(u64(c, out, 1) == sz, "size of %s" % r)
                    env.prove(same(env, c.read(u64(c, out, 0), n), data[:n]), "content of %s" % r)
        if want:
            env.prove(c.call("get_m", a, out) == 1, "the multivector is there")
            env.prove(u64(c, out, 1) == k, "size of the multivector")
            env.prove(c.call("get_om", a, out) == 0, "what was not written is absent")
            for j, r in ((8, "sub"), (9, "osub")):
                got = c.call("get_" + r, a, out)
                env.prove(got == int(skip not in (j, j + 2)), "%s is there exactly if written" % r)
                if got:
                    env.prove(same(env, c.read(u64(c, out, 0), 2), data[:2]), "content of %s" % r)
                    env.prove(u64(c, out, 2) == k, "vector of %s" % r)
        c.close()
    return scenario


def reopening(unit):
    """builders on existing archives: schema checked, nothing but new subarchives is written"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        state = env.int_in("signature", 0, 5).__index__()
        put(c, s, b"Arc.archive", [], text(c, c.call("schema_def")), state)
        if state == 4:
            env.assume(state != 4)
        b = c.call("b_open", s)
        env.observe("open", c.call("b_is_open", b))
        env.prove(c.call("b_is_open", b) == (3 if state in (0, 1) else 0), "a builder opens new archives and archives of its schema")
        p = c.buf([1] * 16)
        k = env.int_in("op", 0, 7).__index__()
        fn, args = [("set_i", (p,)), ("start_v", (p, p + 2)), ("set_v", (p, p + 2)), ("start_m", (p, p + 2)), ("set_d", (p, 2)),
                    ("set_oi", (p,)), ("set_od", (p, 2)), ("set_f", (p, p + 2))][k]
        if state == 1:
            env.prove(c.call(fn, b, *args) == 1, "writing a new archive")
        else:
            env.prove(throws(lambda: c.call(fn, b, *args)) == 1, "existing archives are not modified")
            key = {"set_i": b"i", "start_v": b"v", "set_v": b"v", "start_m": b"m", "set_d": b"d", "set_oi": b"oi", "set_od": b"od", "set_f": b"f"}[fn]
            env.prove(c.call("raw", s, c.buf(key + b"\0"), c.buf(16)) == 0, "nothing is written")
        if state == 0:
            env.prove(c.call("sub_open", c.call("sub_", b)) == 1, "subarchives can be added to existing archives")
        b2 = c.call("b_open", s)
        env.prove(c.call("b_is_open", b2) == (3 if state in (0, 1) else 0), "an archive just created can be reopened")
        env.prove(throws(lambda: c.call("set_i", b2, p)) == 1, "but not modified")
        c.close()
    return scenario


def build():
    u = cpp_unit("C07", "arc", SCHEMA, BODY, sources=["ResourceStorage.cpp", "Archive.cpp", "ArchiveBuilder.cpp"])
    build_units([u])
    hs = []
    B = "an archive with every kind of resource, mandatory and optional, limited and not; "
    for i, pair in enumerate([("signature", "osub"), ("i", "oi"), ("v", "ov"), ("f", "sub"), ("m", "om"), ("d", "od"), ("sub", "osub"), ("i", "signature"),
                              ("v", "d"), ("oi", "osub"), ("f", "om"), ("m", "od")]):
        hs.append(PyHarness("open/%s" % "_".join(pair), opening(u, pair, 99), [], B + "two resources in any of 6 to 12 states and sizes around the limit",
                            validate=3, weight=10))
    for i, trip in enumerate([("signature", "i", "v", "f"), ("d", "m", "sub", "oi"), ("ov", "om", "od", "osub")]):
        hs.append(PyHarness("several/%d" % i, opening(u, trip, tier(1, 2)), [], B + "four resources present or not, sizes around the limit", validate=3, weight=20))
    hs.append(PyHarness("empty", empty(u), [], B, validate=1))
    hs.append(PyHarness("reopen", reopening(u), [], B + "every operation on new, existing and damaged archives", validate=4))
    for k in tier((0, 1, 3), (0, 1, 2, 3, 4)):
        hs.append(PyHarness("build/%d" % k, building(u, k), [], B + "every content of 0..3 (4) items, any one resource left out", validate=4, weight=10))
    return hs


if __name__ == "__main__":
    main("C07", build,
         ["clang 18 -O1 IR of the headers and of the generated code is the code under test; "
          "string streams of libstdc++ are modelled; sanitizer builds replay"],
         ["file and tar storages", "text of describe()", "archives larger than the bounds"])
