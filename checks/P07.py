"""P07: Python archive opening."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pylib import *

F = ["flatdata.lib.archive.Archive.*", "flatdata.lib.resources.*.__init__", "flatdata.lib.resources.*.open",
     "generated archive classes"]

KINDS = {
    "instance": ("r : S;", 5), "vector": ("r : vector< S >;", 10), "raw": ("r : raw_data;", 3),
    "multi": ("r : multivector< 32, S >;", 6), "signature": ("x : raw_data;", 0),
}
S = "struct S { a : u64 : 33; }"


def schema_of(kind, optional):
    return "namespace n { %s archive Arc { %s%s } }" % (S, "@optional " if optional else "", KINDS[kind][0])


def valid_files(mod, kind, size):
    A = mod.n_Arc
    name = "x" if kind == "signature" else "r"
    files = {"Arc.archive": bytes(16), "Arc.archive.schema": A.schema().encode(),
             name + ".schema": A.resource_schema(name).encode(), name: bytes(framed([0] * size))}
    if kind == "multi":
        files["r_index"] = bytes(framed([0, 0, 0, 0, size, 0, 0, 0]))
        files["r_index.schema"] = ("index(%s)" % A.resource_schema("r")).encode()
    return files


def opens(env, mod, files, label):
    """The opened archive, or None when it is refused with one of the documented errors"""
    try:
        return mod.n_Arc(Storage(files))
    except (CorruptArchiveError, SchemaMismatchError):
        return None


def schema_content(kind, optional, delta):
    """The stored schema is an arbitrary text of the expected length (+delta)."""
    def scenario(env):
        mod = module(schema_of(kind, optional))
        files = valid_files(mod, kind, KINDS[kind][1])
        target = "Arc.archive.schema" if kind == "signature" else "r.schema"
        want = files[target]
        got = env.bytes("schema", max(0, len(want) + delta) if abs(delta) < 2 else delta - 1000)
        env.assume(env.all(*[c < 128 for c in got]))
        files[target] = got
        arc = opens(env, mod, files, kind)
        ok = delta == 0 and bool(env.all(*[g == w for g, w in zip(list(got), list(want))]))
        env.prove((arc is not None) == ok, "%s opens exactly when its schema matches byte for byte" % kind)
    return scenario


def schema_edit(kind, cut, put):
    """The stored schema is the expected one with one edit at any position, by arbitrary characters."""
    def scenario(env):
        mod = module(schema_of(kind, False))
        files = valid_files(mod, kind, KINDS[kind][1])
        target = "Arc.archive.schema" if kind == "signature" else "r.schema"
        want = files[target]
        at = env.int_in("at", 0, len(want) - cut)
        for i in range(len(want) - cut):
            if at == i:
                break
        else:
            i = len(want) - cut
        text = env.bytes("text", put)
        env.assume(env.all(*[c < 128 for c in text]))
        got = want[:i] + text + want[i + cut:]
        files[target] = got
        arc = opens(env, mod, files, kind)
        ok = cut == put and bool(env.all(*[g == w for g, w in zip(list(got), list(want))]))
        env.prove((arc is not None) == ok, "%s opens exactly when its schema matches byte for byte" % kind)
    return scenario


def presence(kind, optional, sub=False):
    """Every combination of missing files."""
    def scenario(env):
        mod = module(schema_of(kind, optional))
        files = valid_files(mod, kind, KINDS[kind][1])
        here = {}
        for name in sorted(files):
            here[name] = bool(env.boolean("has_" + name))
            if not here[name]:
                del files[name]
        arc = opens(env, mod, files, kind)
        ok = here["Arc.archive"] and here["Arc.archive.schema"]
        r = "x" if kind == "signature" else "r"
        data = here[r] and here[r + ".schema"] and here.get("r_index", True)
        env.prove((arc is not None) == bool(ok and (optional or data)),
                  "%s archive opens exactly when all required files are present" % kind)
        if arc is not None:
            env.prove((getattr(arc, r) is not None) == bool(data), "resource is present exactly when its files are")
    return scenario


def size_header(kind, extra):
    """Every size header and every content of a resource."""
    def scenario(env):
        mod = module(schema_of(kind, False))
        files = valid_files(mod, kind, KINDS[kind][1])
        n = 16 + KINDS[kind][1] + extra
        target = "Arc.archive" if kind == "signature" else "r"
        mem = env.bytes("m", max(n, 0))
        files[target] = mem
        if n < 16:
            ok = False
        else:
            declared = sum((x << (8 * i) for i, x in enumerate(list(mem[:8]))), 0)
            ok = bool(declared == n - 16)
            if kind == "instance":
                ok = ok and extra == 0
            if kind == "vector":
                ok = ok and (n - 16) % 5 == 0
        arc = opens(env, mod, files, kind)
        env.prove((arc is not None) == ok, "%s opens exactly when its size is consistent" % kind)
        if arc is not None and kind == "vector":
            env.prove(len(arc.r) == (n - 16) // 5, "vector length")
        if arc is not None and kind == "raw":
            env.prove(len(arc.r) == n - 16, "raw data length")
    return scenario


def subarchive(optional, outer_optional):
    schema = ("namespace n { %s archive Sub { %sr : vector< S >; } archive Arc { %ss : archive Sub; } }"
              % (S, "@optional " if optional else "", "@optional " if outer_optional else ""))
    def scenario(env):
        mod = module(schema)
        inner = {"Sub.archive": bytes(16), "Sub.archive.schema": mod.n_Sub.schema().encode(),
                 "r.schema": mod.n_Sub.resource_schema("r").encode(), "r": bytes(framed([0] * 5))}
        outer = {"Arc.archive": bytes(16), "Arc.archive.schema": mod.n_Arc.schema().encode()}
        here = {}
        for name in sorted(inner):
            here[name] = bool(env.boolean("has_" + name))
            if not here[name]:
                del inner[name]
        text = inner.get("Sub.archive.schema")
        match = True
        if text is not None:
            got = env.bytes("schema", len(text))
            env.assume(env.all(*[c < 128 for c in got]))
            inner["Sub.archive.schema"] = got
            match = bool(env.all(*[g == w for g, w in zip(list(got), list(text))]))
        sub = bool(env.boolean("has_sub"))
        if sub:
            outer["s"] = inner
        arc = opens(env, mod, outer, "archive")
        inner_ok = here["Sub.archive"] and here["Sub.archive.schema"] and match and \
            (optional or (here["r"] and here["r.schema"]))
        env.prove((arc is not None) == bool(inner_ok if sub else outer_optional),
                  "sub-archive: opened exactly when valid (or absent and optional)")
        if arc is not None:
            env.prove((arc.s is not None) == sub, "sub-archive presence")
            if sub:
                env.prove((arc.s.r is not None) == bool(here["r"] and here["r.schema"]), "nested resource presence")
    return scenario


def build():
    B = ("one archive per resource kind: every stored schema text of expected length -1/0/+1 and of length 0, 1, 3, every edit of "
         "up to 2 characters at any position, every subset of "
         "files present, every size header for resources of +-2 bytes around the valid size; one level of sub-archives")
    hs = []
    for kind in KINDS:
        for opt in (False, True):
            for d in (-1, 0, 1, 1000, 1001, 1003):   # from 1000 on: texts of 0, 1, 3 bytes
                hs.append(PyHarness("schema/%s/%s/%d" % (kind, opt, d), schema_content(kind, opt, d), F, B, validate=3))
            hs.append(PyHarness("presence/%s/%s" % (kind, opt), presence(kind, opt), F, B, validate=8))
        for cut, put in tier(((0, 1), (1, 0), (1, 1), (1, 2)), ((0, 1), (1, 0), (1, 1), (1, 2), (0, 2), (2, 1), (2, 2), (3, 0))):
            hs.append(PyHarness("edit/%s/%d-%d" % (kind, cut, put), schema_edit(kind, cut, put), F, B, validate=3))
        for e in tier((-30, -2, -1, 0, 1, 2, 5), (-30, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 10)):
            hs.append(PyHarness("size/%s/%d" % (kind, e), size_header(kind, e), F, B, validate=4))
    for a in (False, True):
        for b in (False, True):
            hs.append(PyHarness("sub/%s/%s" % (a, b), subarchive(a, b), F, B, validate=8))
    return hs


if __name__ == "__main__":
    main("P07", build, ["storage is a dictionary stand-in", "stored schemas are ASCII"],
         ["index resources' schemas (the Python reader documents no check of them)", "file-system errors",
          "contents of error messages"])
