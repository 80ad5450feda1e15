"""C10: describing a C++ archive whose schema differs: safe, and shows what differs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *


def schema(k):
    return "namespace n { archive Arc { %s } }" % " ".join("r%d : raw_data;" % i for i in range(k))


BODY = '''
#include <flatdata/MemoryResourceStorage.h>
using namespace flatdata;
typedef MemoryResourceStorage St;
typedef std::shared_ptr<ResourceStorage> Sp;
/* every resource is a buffer of its own, without anything behind it */
struct Exact : ResourceStorage {
    std::string keys[4]; MemoryDescriptor parts[4]; size_t n = 0;
    std::unique_ptr<ResourceStorage> create_directory(const char*) override { return nullptr; }
    std::unique_ptr<ResourceStorage> directory(const char*) override { return nullptr; }
    bool exists(const char* k) override { for (size_t i = 0; i < n; ++i) if (keys[i] == k) return true; return false; }
    std::shared_ptr<std::ostream> create_output_stream(const char*) override { return nullptr; }
    MemoryDescriptor read_resource(const char* k) override { for (size_t i = 0; i < n; ++i) if (keys[i] == k) return parts[i]; return {}; }
};
API exact() { return (U)new Sp(new Exact); }
API place(Sp* s, const char* k, P p, U n) { auto e = static_cast<Exact*>(s->get()); e->keys[e->n] = k; e->parts[e->n++] = MemoryDescriptor(p, n); return 0; }
API storage() { return (U)new Sp(St::create().release()); }
API put(Sp* s, const char* k, P p, U n) { static_cast<St*>(s->get())->assign_value(k, MemoryDescriptor(p, n)); return 0; }
API a_open(Sp* s) { return (U)new n::Arc(n::Arc::open(*s)); }
API is_open(n::Arc* a) { return a->is_open(); }
API schema_def() { return (U)n::Arc::schema_definition(); }
API describe(n::Arc* a, U nest, U* out) { std::string* r = new std::string(a->describe(nest)); out[0] = (U)r->data(); out[1] = r->size(); return 1; }
'''


def u64(c, p, i):
    b, v = c.read(p + 8 * i, 8), 0
    for k in range(8):
        v = v + (b[k] << (8 * k))
    return v


def text(c, p):
    out = []
    while True:
        b = int(c.read(p, 1)[0])
        if b == 0:
            return out
        out.append(b)
        p += 1


def lines_of(cells):
    out, cur = [], []
    for x in cells:
        if x == 10:
            out.append(cur)
            cur = []
        else:
            cur.append(x)
    return out + ([cur] if cur else [])


def same(a, b):
    return len(a) == len(b) and all(bool(x == y) for x, y in zip(a, b))


def explains(shown, want, found):
    """the lines shown are a diff of the two texts; lines elided are equal in both"""
    states, skip = {(0, 0)}, True
    for line in list(shown) + [None]:
        if skip:
            more = set(states)
            for i, j in states:
                while i < len(want) and j < len(found) and same(want[i], found[j]):
                    i, j = i + 1, j + 1
                    more.add((i, j))
            states = more
        if line is None:
            break
        if same(line, b"..."):
            skip = True
            continue
        skip = False
        mark, body = line[0], line[2:-1]
        nxt = set()
        for i, j in states:
            if mark == ord("-") and i < len(want) and same(want[i], body):
                nxt.add((i + 1, j))
            if mark == ord("+") and j < len(found) and same(found[j], body):
                nxt.add((i, j + 1))
            if mark == ord(" ") and i < len(want) and j < len(found) and same(want[i], body) and same(found[j], body):
                nxt.add((i + 1, j + 1))
        states = nxt
    return (len(want), len(found)) in states


def exact(unit, edits_at):
    """stored schemas end where the resource ends, and contain any byte"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("exact")
        want = lines_of(text(c, c.call("schema_def")))
        cells = [x for l in want for x in l + [10]][:-1]
        b = env.int_in("byte", 0, 255)
        at = (0, len(cells) // 2, len(cells) - 1)[edits_at]
        env.assume(b != 10)
        env.assume(b != cells[at])
        cells = cells[:at] + [b] + cells[at + 1:]
        K = lambda t: c.buf(t + b"\0")
        c.call("place", s, K(b"Arc.archive"), c.buf([0] * 16), 16)
        c.call("place", s, K(b"Arc.archive.schema"), c.buf(cells), len(cells))
        a = c.call("a_open", s)
        env.prove(c.call("is_open", a) == 0, "archives of another schema are not open")
        out = c.buf(16)
        c.call("describe", a, 0, out)
        n = u64(c, out, 1).__index__()
        shown = lines_of(list(c.read(u64(c, out, 0), n)))
        env.observe("size", n)
        k = max(i for i, l in enumerate(shown) if all(x == ord("=") for x in l) or bytes_start(l, b"FATAL")) + 1
        env.prove(explains(shown[k:], want, lines_of(cells)), "the description shows every line which differs")
        c.close()
    return scenario


def differing(unit, edits, nest, tail):
    """the stored schema is the expected one with `edits` edits anywhere, the last with any character"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        want = lines_of(text(c, c.call("schema_def")))
        found = [list(x) for x in want]
        ch = env.int_in("char", 1, 255)
        env.assume(ch != 10)
        for k in range(edits):
            op = env.int_in("op%d" % k, 0, 3).__index__()
            at = env.int_in("at%d" % k, 0, len(found)).__index__()
            if op == 0:
                found.insert(at, [120, ch] if k == 0 else [121])
            elif op == 1 and at < len(found):
                del found[at]
            elif op == 2 and at < len(found):
                found[at] = found[at] + [ch if k == 0 else 122]
            elif at < len(found):
                found[at] = []
        cells = [x for l in found for x in l + [10]]
        if cells and not tail:
            cells = cells[:-1]
        K = lambda t: c.buf(t + b"\0")
        frame = [0] * 16
        c.call("put", s, K(b"Arc.archive"), c.buf(frame), 16)
        c.call("put", s, K(b"Arc.archive.schema"), c.buf(cells if cells else b"\1"), len(cells))
        a = c.call("a_open", s)
        env.prove(c.call("is_open", a) == 0, "archives without their resources are not open")
        out = c.buf(16)
        c.call("describe", a, nest, out)
        n = u64(c, out, 1).__index__()
        shown = lines_of(list(c.read(u64(c, out, 0), n)))
        env.observe("size", n)
        intact = same([x for l in want for x in l + [10]], cells)
        k = 0 if intact else max(i for i, l in enumerate(shown) if all(x == ord("=") for x in l) or bytes_start(l, b"FATAL")) + 1
        if not intact:
            found = lines_of(cells)
            env.prove(explains(shown[k:], want, found), "the description shows every line which differs")
        c.close()
    return scenario


def bytes_start(l, t):
    return len(l) >= len(t) and all(x == y for x, y in zip(l, t))


def long_diff(unit, least, most):
    """descriptions of any length"""
    def scenario(env):
        c = unit.session(env)
        s = c.call("storage")
        want = lines_of(text(c, c.call("schema_def")))
        n = env.int_in("inserted", least, most).__index__()
        at = env.int_in("at", 0, 2).__index__() * (len(want) // 2)
        drop = env.boolean("drop")
        found = want[:at] + [[65 + i % 20] for i in range(n)] + want[at + (1 if drop and at < len(want) else 0):]
        cells = [x for l in found for x in l + [10]]
        K = lambda t: c.buf(t + b"\0")
        c.call("put", s, K(b"Arc.archive.schema"), c.buf(cells), len(cells))
        a = c.call("a_open", s)
        out = c.buf(16)
        c.call("describe", a, 0, out)
        m = u64(c, out, 1).__index__()
        shown = lines_of(list(c.read(u64(c, out, 0), m)))
        env.observe("size", m)
        k = max(i for i, l in enumerate(shown) if all(x == ord("=") for x in l) or bytes_start(l, b"FATAL")) + 1
        env.prove(explains(shown[k:], want, found), "the description shows every line which differs")
        c.close()
    return scenario


def build():
    us = {k: cpp_unit("C10", "arc%d" % k, schema(k), BODY, sources=["ResourceStorage.cpp", "Archive.cpp", "ArchiveBuilder.cpp"]) for k in (1, 8, 28)}
    build_units(list(us.values()))
    hs = []
    B = "archives of 1, 8, 28 resources; the stored schema is the expected one with 1 (2) lines added, removed, extended or emptied anywhere, "
    for k, edits, nest in ((1, 1, 0), (1, tier(1, 2), 1), (8, 1, 0)):
        for tail in (0, 1):
            hs.append(PyHarness("differ/%d/%d/%d" % (k, nest, tail), differing(us[k], edits, nest, tail), [],
                                B + "one character symbolic, with and without line end", validate=3, weight=10))
    for i in range(3):
        hs.append(PyHarness("exact/%d" % i, exact(us[8], i), [], B + "any byte replaced, nothing behind the last byte", validate=3, weight=10))
    for k, most in ((1, tier(64, 130)), (28, tier(40, 70))):
        hs.append(PyHarness("long/%d" % k, long_diff(us[k], 0, most), [], B + "0..64 (130) lines inserted at three places", validate=3, weight=20))
    for lo, hi in ((257, 258),) + tier((), ((300, 301), (512, 514))):
        hs.append(PyHarness("longer/%d" % lo, long_diff(us[1], lo, hi), [], B + "257, 258 (also 300, 301, 512 to 514) lines inserted at three places", validate=2, weight=30))
    return hs


if __name__ == "__main__":
    main("C10", build,
         ["clang 18 -O1 IR of the headers and of the generated code is the code under test; "
          "string streams of libstdc++ are modelled; sanitizer builds replay"],
         ["the table of resources in descriptions", "other edits than those listed"])
