"""Model of the parts of libstdc++ which exist only as compiled code: string streams."""
import llsym
from llsym import lib, PATTERNS, Sink, bv, simp
from llir import ity, PTR
import pysym
import re
import z3

STREAM_SIZE = 512


def _vt(m, off):
    """a vtable with this offset of the virtual base"""
    if not hasattr(m, "stream_vt"):
        dtor1 = m.global_addr("@flatdata_sym_stream_dtor")
        dtor0 = m.global_addr("@flatdata_sym_stream_delete")
        m.stream_vt = {}
        ct = m.alloc(1024, "global", "ctype", [0] * 1024)
        ct.cells[56] = 1
        for i in range(256):
            ct.cells[57 + i] = i
            ct.cells[57 + 256 + 1 + i] = i
        m.stream_ctype = ct.base
        m.stream_dtors = (dtor1, dtor0)
    if off not in m.stream_vt:
        o = m.alloc(64, "global", "stream vtable", [0] * 64)
        m.store(ity(64), off & (2 ** 64 - 1), o.base)
        m.store(ity(64), m.stream_dtors[0], o.base + 24)
        m.store(ity(64), m.stream_dtors[1], o.base + 32)
        m.stream_vt[off] = o.base + 24
    return m.stream_vt[off]


def _vtt(ios_off):
    """destructors inlined into the module restore the vtables of the bases"""
    def fill(m, o):
        for i in range(0, len(o.cells), 8):
            m.store(ity(64), _vt(m, ios_off if i == 0 else 0), o.base + i)
    return fill


llsym.GLOBALS += [(re.compile(r"^@_ZTTNSt7__cxx1119basic_ostringstreamI"), _vtt(112)),
                  (re.compile(r"^@_ZTTNSt7__cxx1118basic_stringstreamI"), _vtt(128))]


def _fake_stream(m, this, ostream_off, ios_off):
    """initialises stream memory: vptrs with virtual-base offsets, good state, a 'C' locale ctype"""
    size = ios_off + 264
    m.store_bytes(this, [0] * size)
    m.store(ity(64), _vt(m, ios_off), this)
    if ostream_off:
        m.store(ity(64), _vt(m, ios_off - ostream_off), this + ostream_off)
    m.store(ity(64), _vt(m, 0), this + ios_off)
    m.store(ity(64), m.stream_ctype, this + ios_off + 240)
    s = Sink()
    s.ios = this + ios_off
    s.base = this
    s.text = None
    m.sinks[this] = s
    m.sinks[this + ostream_off] = s
    m.sinks[this + ios_off] = s


def _good(m, s):
    return m.truth(m.icmp("eq", ity(32), m.load(ity(32), s.ios + 32), 0))


def make_string(m, at, cells):
    at = m.addr(at)
    n = len(cells)
    if n <= 15:
        p = at + 16
        m.store_bytes(p, [0] * 16)
    else:
        p = m.alloc(n + 1).base
        m.store(ity(64), n, at + 16)
    m.store(ity(64), p, at)
    m.store(ity(64), n, at + 8)
    m.store_bytes(p, list(cells) + [0])


def _ss_ctor(m, a, name):
    _fake_stream(m, m.addr(a[0]), 16, 128)
    m.sinks[m.addr(a[0])].text = m.addr(a[0]) + 24 + 72
    make_string(m, m.sinks[m.addr(a[0])].text, [])


def _os_ctor(m, a, name):
    _fake_stream(m, m.addr(a[0]), 0, 112)
    m.sinks[m.addr(a[0])].text = m.addr(a[0]) + 8 + 72
    make_string(m, m.sinks[m.addr(a[0])].text, [])


def _put_cells(m, s, cells):
    """code of libstdc++ inlined into the module reads the text member, as no put area exists"""
    s.write(cells)
    if s.text is not None:
        make_string(m, s.text, s.data)


def _str(m, a, name):
    make_string(m, a[0], m.sinks[m.addr(a[1])].data)


def _dtor(m, a, name):
    return None


@lib("flatdata_sym_stream_dtor")
def _sd(m, a, name):
    m.sinks[m.addr(a[0])].sync(m)


@lib("flatdata_sym_stream_delete")
def _sdel(m, a, name):
    m.sinks[m.addr(a[0])].sync(m)
    llsym._free(m, [m.sinks[m.addr(a[0])].base], name)


@lib("_ZNSo5writeEPKcl", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l")
def _write(m, a, name):
    s = m.sinks[m.addr(a[0])]
    n = m.fork_value(a[2], 64)
    if _good(m, s):
        _put_cells(m, s, m.load_bytes(a[1], n))
    return a[0]


@lib("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
def _insert_cstr(m, a, name):
    s, p = m.sinks[m.addr(a[0])], m.addr(a[1])
    out = []
    while True:
        c = m.load_bytes(p + len(out), 1)[0]
        if not m.truth(m.icmp("ne", ity(8), c, 0)):
            break
        out.append(c)
    if _good(m, s):
        _put_cells(m, s, out)
    return a[0]


@lib("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
def _endl(m, a, name):
    s = m.sinks[m.addr(a[0])]
    if _good(m, s):
        _put_cells(m, s, [10])
        s.sync(m)
    return a[0]


@lib("_ZNSo3putEc")
def _put(m, a, name):
    s = m.sinks[m.addr(a[0])]
    if _good(m, s):
        _put_cells(m, s, [a[1]])
    return a[0]


@lib("_ZNSo5seekpESt4fposI11__mbstate_tE")
def _seekp(m, a, name):
    s = m.sinks[m.addr(a[0])]
    if _good(m, s):
        s.sync(m)
        s.pos = m.fork_value(a[1], 64)
    return a[0]


@lib("_ZNSo5flushEv")
def _flush(m, a, name):
    m.sinks[m.addr(a[0])].sync(m)
    return a[0]


@lib("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate")
def _clear(m, a, name):
    m.store(ity(32), a[1], m.sinks[m.addr(a[0])].ios + 32)


def _insert_number(m, a, name):
    s = m.sinks[m.addr(a[0])]
    v = a[1]
    _put_cells(m, s, [ord(c) for c in str(v)] if isinstance(v, int) else [ord("#")])
    return a[0]


PATTERNS += [
    (re.compile(r"^@_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC[12]E"), _ss_ctor),
    (re.compile(r"^@_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC[12]E"), _os_ctor),
    (re.compile(r"^@_ZNKSt7__cxx111[89]basic_o?stringstreamIcSt11char_traitsIcESaIcEE3strEv"), _str),
    (re.compile(r"^@_ZNSt7__cxx111[89]basic_o?stringstreamIcSt11char_traitsIcESaIcEED[012]Ev"), _dtor),
    (re.compile(r"^@_ZNSt8ios_baseD[012]Ev|^@_ZNSt6localeD[012]Ev|^@_ZNSt8ios_baseC2Ev|^@_ZNSt6localeC1Ev"), _dtor),
    (re.compile(r"^@_ZNSo9_M_insertI"), _insert_number),
    (re.compile(r"^@_ZNSolsE[ijlmt]"), _insert_number),
]
