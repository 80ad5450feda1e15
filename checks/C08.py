"""C08: C++ reader of tar archives."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from cpplib import *

BODY = '''
#include <flatdata/internal/TarReader.h>
using namespace flatdata;
typedef std::vector<internal::TarFileEntry> L;
API tar(P p, U n) { return (U)new L(internal::read_tar_file_entries(MemoryDescriptor(p, n))); }
API count(L* l) { return l->size(); }
API name_of(L* l, U i) { return (U)(*l)[i].name.data(); }
API name_len(L* l, U i) { return (*l)[i].name.size(); }
API offset_of(L* l, U i) { return (*l)[i].offset; }
API size_of_(L* l, U i) { return (*l)[i].size; }
'''


class Refused(Exception):
    pass


def numeric(cells):
    """number field: octal digits ended by NUL, or base 256"""
    big = cells[0] >= 128
    if big:
        v = cells[0] & 127
        for c in cells[1:]:
            v = v * 256 + c
        if v >= 1 << 64:
            raise Refused()
        return v
    v = 0
    for c in cells:
        if c == 0:
            break
        if c < 48 or c > 55:
            raise Refused()
        v = v * 8 + (c - 48)
    if v >= 1 << 64:
        raise Refused()
    return v


def cstr(cells):
    out = []
    for c in cells:
        if c == 0:
            break
        out.append(c)
    return out


def spec(b):
    """entries (name, offset, size) of a tar archive"""
    if len(b) % 512:
        raise Refused()
    out, pos, long_name = [], 0, None
    while pos < len(b):
        h = b[pos:pos + 512]
        pos += 512
        zero = True
        for c in h:
            if c != 0:
                zero = False
                break
        if zero:
            break
        total = 0
        for i, c in enumerate(h):
            total = total + (32 if 148 <= i < 156 else c)
        if not numeric(h[148:156]) == total:
            raise Refused()
        flag = h[156]
        if flag == 48 or flag == 0:
            size = numeric(h[124:136])
            name = cstr(h[:100])
            if h[257:263] == [117, 115, 116, 97, 114, 0]:
                pre = cstr(h[345:500])
                if pre:
                    name = pre + [47] + name
            if long_name:
                name = long_name
            long_name = None
            out.append((name, pos, size))
            if size > len(b) - pos:
                break  # truncated: the last entry
            pos += ((size + 511) >> 9).__index__() * 512
        elif flag == 53:
            long_name = None
        elif flag == 76:
            size = numeric(h[124:136])
            if size > len(b) - pos:
                raise Refused()
            long_name = []
            for i, c in enumerate(b[pos:]):
                if i >= size or c == 0:
                    break
                long_name.append(c)
            pos += ((size + 511) >> 9).__index__() * 512
        else:
            raise Refused()
    return out


def put(h, at, cells):
    h[at:at + len(cells)] = list(cells)


SPARE = list(range(136, 148)) + list(range(108, 124)) + list(range(500, 512))  # mtime, uid, gid, padding


def block(name=b"f", size=b"00000000000\0", flag=48, magic=b"ustar\0" b"00", prefix=b"", checksum=None):
    """a header; the complement of every symbolic byte is put into an unused field, so that the
    checksum is a constant"""
    h = [0] * 512
    put(h, 0, name)
    put(h, 100, b"0000644\0")
    put(h, 124, size)
    h[156] = flag
    put(h, 257, magic)
    put(h, 345, prefix)
    total, spare = 8 * 32, iter(SPARE)
    for c in list(h):
        if type(c) is int:
            total += c
        else:
            h[next(spare)] = 255 - c
            total += 255
    put(h, 148, list(b"%06o\0 " % total) if checksum is None else checksum)
    return h


def size_field(v):
    return [((v >> (3 * k)) & 7) + 48 for k in range(10, -1, -1)] + [0]


def compare(env, c, cells, names=True):
    p = c.buf(cells)
    try:
        want = spec(list(cells))
    except Refused:
        want = None
    got = []
    if want is None:
        env.prove(throws(lambda: c.call("tar", p, len(cells))) == 1, "damaged archives are refused")
        env.observe("n", -1)
        return
    l = c.call("tar", p, len(cells))
    env.observe("n", c.call("count", l))
    env.prove(c.call("count", l) == len(want), "number of entries")
    for i, (name, off, size) in enumerate(want):
        env.prove(c.call("offset_of", l, i) == off, "offset of entry %d" % i)
        env.prove(c.call("size_of_", l, i) == size, "size of entry %d" % i)
        env.prove(c.call("name_len", l, i) == len(name), "length of the name of entry %d" % i)
        if name:
            got = c.read(c.call("name_of", l, i), len(name))
            env.prove(env.all(*[x == y for x, y in zip(got, name)]), "name of entry %d" % i)


def cells_of(v):
    return list(v)


def one(unit, build):
    def scenario(env):
        c = unit.session(env)
        compare(env, c, build(env))
        c.close()
    return scenario


DATA = [100 + i % 50 for i in range(512)]
END = [0] * 1024


NAME = [110] * 5 + [0] * 507


def sizes(flag, digits, first):
    """every content of the size field's varying bytes"""
    def b(env):
        s = cells_of(env.bytes("size", digits))
        f = s + list(b"00000000000\0"[len(s):]) if first else list(b"00000000000\0"[:12 - len(s)]) + s
        return block(size=f, flag=flag) + (NAME if flag == 76 else []) + block(b"g") + DATA + block(b"h", size_field(3)) + DATA
    return b


def base256(flag, where):
    def b(env):
        s = cells_of(env.bytes("size", len(where)))
        f = [128] + [0] * 11
        for i, c in zip(where, s):
            f[i] = c
        if 0 in where:
            env.assume(f[0] >= 128)
        return block(size=f, flag=flag) + (NAME if flag == 76 else []) + block(b"g") + DATA
    return b


def flags(env):
    return block(b"ab", size_field(600), flag=cells_of(env.bytes("flag", 1))[0]) + block(b"x") + block(b"y") + block(b"z", size_field(1)) + DATA


def checksums(env):
    s = cells_of(env.bytes("sum", 8))
    if env.boolean("small"):
        return block(checksum=s) + END
    return block(size=size_field(1), checksum=s) + DATA


def content(where):
    """a header byte changed in any way, checksum not adapted"""
    def b(env):
        h = block(b"abc", size_field(1))
        i = where[env.int_in("where", 0, len(where) - 1).__index__()]
        h[i] = cells_of(env.bytes("value", 1))[0]
        return h + DATA
    return b


def names(length):
    def b(env):
        n = cells_of(env.bytes("name", 3))
        h = block(list(b"n" * (length - 3)) + n, size_field(5))
        return h + DATA + block(b"second")
    return b


def prefixes(env):
    n = cells_of(env.bytes("pre", 2))
    m = [b"ustar\0" b"00", b"ustar  \0", b"\0" * 8][env.int_in("magic", 0, 2).__index__()]
    return block(b"abc", prefix=[112] * [0, 5, 153][env.int_in("kind", 0, 2).__index__()] + n, magic=m) + END


def long_names(follow):
    def b(env):
        n = cells_of(env.bytes("name", 3))
        k = env.int_in("size", 0, 520)
        body = [108] * 6 + n + [0] * 503
        return (block(b"././@LongLink", size_field(k), flag=76) + body +
                block(b"short", flag=follow, size=size_field(4 if follow == 76 else 0)) +
                (NAME if follow == 76 else []) + block(b"other", size_field(7)) + DATA)
    return b


def lengths(env):
    k = [0, 1, 511, 512, 513, 1023, 1024, 1025][env.int_in("which", 0, 7).__index__()]
    return (block(b"a") + block(b"b") + block(b"c"))[:k]


def triple(flags):
    def b(env):
        out = []
        for i, flag in enumerate(flags):
            k = env.int_in("size%d" % i, 0, 1030) if flag != 53 else 0
            big = env.int_in("blocks%d" % i, 0, 3).__index__() if flag != 53 else 0
            out += block(b"f%d" % i, size_field(k), flag=flag)
            if flag == 48 or flag == 0:
                env.assume((k + 511) // 512 == big)
                out += DATA * big
        if env.boolean("end"):
            out += END + block(b"after")
        return out
    return b


def build():
    u = cpp_unit("C08", "tar", "namespace n { struct X { a : u8; } }", BODY, sources=["TarReader.cpp"])
    build_units([u])
    B = "tar archives of 1 to 5 blocks; "
    hs = []

    def add(name, b, what, **kw):
        hs.append(PyHarness(name, one(u, b), [], B + what, **dict(dict(validate=6), **kw)))
    for flag in (48, 76):
        add("size/low/%c" % flag, sizes(flag, tier(4, 5), False), "every content of the last bytes of the size field", weight=10)
        add("size/high/%c" % flag, sizes(flag, tier(2, 4), True), "every content of the first bytes of the size field", weight=10)
        for w in ((0, 3, 4), (2, 3, 4, 11), (4, 7, 11), (9, 10, 11)) if TIER == "quick" else ((0, 1, 2, 3, 4), (2, 3, 4, 5, 11), (4, 6, 7, 11), (8, 9, 10, 11)):
            add("size/base256/%c/%s" % (flag, "-".join(map(str, w))), base256(flag, w), "base-256 sizes, bytes %s arbitrary" % (w,), weight=10)
    add("flags", flags, "every type flag")
    add("checksum", checksums, "every content of the checksum field")
    fields = dict(name=(0, 1, 2, 3, 99), numbers=(100, 108, 116, 135, 136, 147), size=(124, 125, 133, 134, 135), checksum=(148, 149, 153, 154, 155),
                  type=(156, 157, 256), magic=(257, 258, 262, 263, 264), rest=(265, 297, 329, 337, 344, 500, 511), prefix=(345, 346, 499))
    for k, w in fields.items():
        add("content/" + k, content(w), "a byte of the header (%s) changed in any way" % k, weight=20)
    for n in (3, 60, 99, 100):
        add("name/%d" % n, names(n), "names of up to 100 characters, the last three arbitrary")
    add("prefix", prefixes, "name prefixes of POSIX archives")
    for f in (48, 53, 76):
        add("long/%c" % f, long_names(f), "long names of every length field, followed by files, directories or long names", weight=10)
    add("lengths", lengths, "archives of any of 8 lengths")
    for f in ((48, 0), (53, 48), (48, 53, 48)) + (((0, 48, 48),) if TIER == "thorough" else ()):
        add("entries/" + "".join("%c" % x if x else "n" for x in f), triple(f), "entries of any size up to 1030", weight=20)
    return hs


if __name__ == "__main__":
    main("C08", build,
         ["clang 18 -O1 IR of TarReader.cpp is the code under test; sanitizer builds replay"],
         ["mapping of files into memory", "entries other than files, directories and GNU long names (refused)", "larger archives"])
