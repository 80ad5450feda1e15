"""Helpers for the checks of the Python runtime library."""
from common import *
from flatdata.generator.engine import Engine
from flatdata.lib import data_access, resources, archive, archive_builder, structure, errors
from flatdata.lib import resource_storage
from flatdata.lib import flatdata_writer, inspector      # noqa: F401  (shimmed)
from flatdata.lib.errors import *

_MODULES = {}


def module(schema):
    """Generated Python module of a schema (real generator)."""
    if schema not in _MODULES:
        _MODULES[schema] = Engine(schema).render_python_module()
    return _MODULES[schema]


class Layout:
    """Independent statement of the layout: fields packed LSB first without gaps."""

    def __init__(self, name, fields):
        """fields: [(name, type, width)]"""
        self.name = name
        self.fields = []
        bit = 0
        for n, t, w in fields:
            self.fields.append((n, bit, w, t.startswith("i")))
            bit += w
        self.size = (bit + 7) // 8
        self.text = "struct %s { %s }" % (name, " ".join("%s : %s : %d;" % f for f in fields))

    def symbolic(self, env, prefix):
        """A symbolic record: every representable value of every field."""
        out = {}
        for n, _, w, s in self.fields:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            out[n] = env.int_in(prefix + "_" + n, lo, hi)
        return out

    def encode(self, rec):
        """list of byte values (unused trailing bits are zero)"""
        total = 0
        for n, bit, w, s in self.fields:
            total = total + ((rec[n] & ((1 << w) - 1)) << bit)
        return [(total >> (8 * i)) & 255 for i in range(self.size)]

    def decode(self, b):
        total = 0
        for i, x in enumerate(b):
            total = total + (x << (8 * i))
        out = {}
        for n, bit, w, s in self.fields:
            v = (total >> bit) & ((1 << w) - 1)
            out[n] = v - ((v >> (w - 1)) << w) if s else v
        return out


def le64(v):
    return [(v >> (8 * i)) & 255 for i in range(8)]


def framed(payload):
    """resource = 64-bit little-endian payload size, payload, 8 zero bytes"""
    return le64(len(payload)) + list(payload) + [0] * 8


def same_bytes(env, got, want, label):
    got = list(got)
    env.prove(len(got) == len(want), label + ": length")
    env.prove(env.all(*[g == w for g, w in zip(got, want)]), label)


def mk_bytes(env, cells):
    """bytes object (symbolic or concrete) from a list of integers"""
    if env.symbolic:
        import pysym
        return pysym.SymBytes([pysym._int_to_cell(c) for c in cells])
    return bytes(int(c) for c in cells)


class Written(dict):
    """name -> content; asking for a file that was never written shows a violation"""

    def __missing__(self, name):
        raise Violated("nothing was written to %s" % name)


class Capture:
    """Stand-in for the file writer: records what would be written to which file."""

    def __init__(self, files=None):
        self.files = files if files is not None else Written()
        self.closed = set()

    def create_instance(self):
        c = Capture(self.files)
        c.closed = self.closed
        return c

    def open(self, name, path):
        self.name = name
        self.files[name] = b""

    def write(self, data):
        self.files[self.name] = self.files[self.name] + data if len(self.files[self.name]) else data

    def close(self):
        self.closed.add(self.name)


class Storage:
    """Dictionary storage; nested dictionaries are sub-archives."""

    def __init__(self, data):
        self.data = data

    def get(self, key, is_optional=False):
        if key not in self.data:
            if not is_optional:
                raise MissingResourceError(key)
            return None
        v = self.data[key]
        return Storage(v) if type(v) is dict else v

    def ls(self):
        return list(self.data)


def raises(kinds, f):
    try:
        f()
    except kinds as e:
        return type(e).__name__
    return None


class FakeFrame:
    """Stand-in for a data frame during symbolic runs."""

    def __init__(self, data, columns=None):
        self.data = data
        self.columns = columns


class FakeArray(list):
    pass


class FakeNumpy:
    """Stand-in for numpy during symbolic runs: uninitialised cells are None."""
    dtype = staticmethod(lambda s: s)
    number = ()

    @staticmethod
    def empty(shape, dtype=None):
        return FakeArray([None] * int(shape))

    @staticmethod
    def zeros(shape, dtype=None):
        return FakeArray([None] * int(shape))

    @staticmethod
    def array(x, dtype=None):
        return FakeArray(list(x))

    @staticmethod
    def fromiter(x, dtype=None, count=-1):
        return FakeArray(list(x))


class FakePandas:
    DataFrame = FakeFrame


def frame_columns(f):
    """{column: [values]} of a (fake) frame"""
    if isinstance(f, FakeFrame):
        rows = list(f.data)
        if f.columns is None:
            return None, rows
        return list(f.columns), [list(r) for r in rows]
    return list(f.columns), [[int(x) for x in r] for r in f.itertuples(index=False)]


PANDAS = {"flatdata.lib.resources": {"np": FakeNumpy, "pd": FakePandas},
          "flatdata.lib.archive": {"pd": FakePandas}, "flatdata.lib.structure": {"np": FakeNumpy}}
