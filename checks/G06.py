"""G06: names and ranges."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from gen import *

def compile_schema(schema):      # schema errors are runtime errors, some refusals are plain ones
    try:
        return Engine(schema)
    except RuntimeError:
        return None


KINDS = ["struct", "enum", "const", "archive"]


def decl(kind, name, width=7):
    return {"struct": "struct %s { f : u32 : %d; }", "enum": "enum %s : u8 : %d { P, Q }",
            "const": "const u8 %s = %d;", "archive": "archive %s { only%d : raw_data; }"}[kind] % (name, width)


def pick(env, name, options):
    return options[env.int_in(name, 0, len(options) - 1).__index__()]


def duplicates(kinds):
    """two declarations of symbolic names, in one namespace (one or two blocks) or in two"""
    def scenario(env):
        k1, k2 = kinds
        n1, n2 = pick(env, "name1", "AB"), pick(env, "name2", "AB")
        s1, s2 = pick(env, "space1", ["a", "b", "a.c"]), pick(env, "space2", ["a", "b", "a.c"])
        e = compile_schema("namespace %s { %s } namespace %s { %s } namespace a { struct Z { z : u8; } }"
                           % (s1, decl(k1, n1, 3), s2, decl(k2, n2, 4)))
        env.prove((e is not None) == ((n1, s1) != (n2, s2)), "a schema with two declarations of one name is refused, other schemas are not")
        if e is not None:
            for k, n, s, w in ((k1, n1, s1, 3), (k2, n2, s2, 4)):
                node = e.tree.find(".%s.%s" % (s, n))
                env.prove(node is not None and type(node).__name__.lower()[:4] == {"const": "cons", "enum": "enum", "struct": "stru", "archive": "arch"}[k],
                          "the declaration is there")
                if k == "struct":
                    env.prove(node.size_in_bits == w, "with its own content")
    return scenario


def members(what):
    """members of structures and archives"""
    def scenario(env):
        names = [pick(env, "name%d" % i, "xyz") for i in range(3)]
        if what == "struct":
            text = "namespace n { struct S { %s } }" % " ".join("%s : u8 : %d;" % (n, i + 2) for i, n in enumerate(names))
        else:
            text = "namespace n { struct S { f : u8; } archive S2 { %s } }" % " ".join(
                "%s : %s;" % (n, ("raw_data", "S", "vector< S >")[i]) for i, n in enumerate(names))
        e = compile_schema(text)
        env.prove((e is not None) == (len(set(names)) == 3), "members have distinct names")
    return scenario


STORED = {"raw_data": [""], "S": [""], "vector< S >": [""], "archive Sub": [""], "multivector< 32, S >": ["", "_index"]}


def stored(n):
    """what is stored under which name"""
    def scenario(env):
        names = [pick(env, "name%d" % i, ["x", "x_index", "x_index_index", "_index"]) for i in range(n)]
        kinds = [pick(env, "kind%d" % i, list(STORED)) for i in range(n)]
        e = compile_schema("namespace n { struct S { f : u8; } archive Sub { %s : raw_data; } archive A { %s } }" % (
            names[0] + "_index", " ".join("%s : %s;" % x for x in zip(names, kinds))))
        files = [m + x for m, k in zip(names, kinds) for x in STORED[k]]
        env.prove((e is not None) == (len(set(files)) == len(files)), "no two resources of an archive are stored under one name")
    return scenario


def resolution(env):
    """a relative name denotes the member of the archive, then of the namespace; a name which starts with a dot the declaration at that path"""
    outer, inner, deep, other = [bool(env.boolean(k)) for k in ("outer", "inner", "deep", "other")]
    text = "namespace a { struct Z { z : u8; } %s }" % (decl("struct", "S", 3) if outer else "")
    text += "namespace a.b { struct Z { z : u8; } %s }" % (decl("struct", "S", 4) if inner else "")
    text += "namespace a.b.c { struct Z { z : u8; } %s }" % (decl("struct", "S", 5) if deep else "")
    text += "namespace c { struct Z { z : u8; } %s }" % (decl("struct", "S", 6) if other else "")
    ref = pick(env, "ref", ["S", ".a.S", ".a.b.S", ".a.b.c.S", ".c.S", "c.S", "b.S", "b.c.S", "a.b.S", ".S", "T"])
    where = pick(env, "where", ["a", "a.b", "c"])
    here = {("a", "S"): 3, ("a.b", "S"): 4, ("c", "S"): 6, ("a.b", "c.S"): 5, ("a", "b.S"): 4, ("a", "b.c.S"): 5}
    there = {3: outer, 4: inner, 5: deep, 6: other}
    want = {".a.S": 3, ".a.b.S": 4, ".a.b.c.S": 5, ".c.S": 6}.get(ref) if ref[0] == "." else here.get((where, ref))
    if not there.get(want):
        want = None
    e = compile_schema("%s namespace %s { archive A { r : vector< %s >; } }" % (text, where, ref))
    env.prove((e is not None) == (want is not None), "a reference is accepted exactly if its target is declared")
    if e is not None:
        node = e.tree.find(".%s.A.r" % where).referenced_structures[0].node
        env.prove(node.size_in_bits == want, "it denotes the declaration in its own namespace or at its path")


def shadow(env):
    """resources of the archive come before declarations of the namespace, resources of other archives are reached by their path"""
    mine, others = bool(env.boolean("mine")), bool(env.boolean("others"))
    same = pick(env, "same", ["", "struct dst { g : u8; }", "enum dst : u8 { P }", "const u8 dst = 1;", "archive dst { only : raw_data; }"])
    ref = pick(env, "ref", ["dst", "A.dst", "B.dst", ".n.B.dst", ".n.A.dst", "n.A.dst"])
    e = compile_schema("namespace n { " + same + " struct S { f : u8 : 5; } archive B { %s x : raw_data; } archive A { @explicit_reference( S.f, %s ) src : vector< S >; %s } }"
                       % ("dst : vector< S >;" if others else "", ref, "dst : vector< S >;" if mine else ""))
    want = {"dst": ".n.A.dst", "A.dst": ".n.A.dst", "B.dst": ".n.B.dst", ".n.B.dst": ".n.B.dst", ".n.A.dst": ".n.A.dst"}.get(ref)
    if want and not (mine if ".A." in want else others):
        want = None
    env.prove((e is not None) == (want is not None), "a resource reference is accepted exactly if the resource is declared")
    if e is not None:
        for there, path in ((mine, ".n.A.dst"), (others, ".n.B.dst")):
            if there:
                env.prove(e.tree.find(path).max_size == (32 if path == want else None), "only the referenced resource is limited")


POSITIONS = {
    "vector": ("archive T { r : vector< %s >; }", ["struct"]),
    "instance": ("archive T { r : %s; }", ["struct"]),
    "multivector": ("archive T { r : multivector< 8, St, %s >; }", ["struct"]),
    "sub": ("archive T { r : archive %s; }", ["archive"]),
    "type": ("struct T { t : %s : 7; }", ["enum"]),
    "const": ("struct T { @const( %s ) t : u8; }", ["const"]),
    "optional": ("struct T { @optional( %s ) t : u8; }", ["const"]),
    "target": ("archive T { @explicit_reference( St.f, %s ) r : vector< St >; q : raw_data; }", ["resource"]),
    "source": ("archive T { @explicit_reference( %s.f, q ) r : vector< St >; q : raw_data; }", ["decorated"]),
    "bound": ("@bound_implicitly( b : q, %s ) archive T { r : vector< St >; q : vector< St >; }", ["vector"]),
}


def kinds(position):
    """a reference is accepted exactly if its target is of the right kind"""
    text, good = POSITIONS[position]
    def scenario(env):
        kind = pick(env, "kind", KINDS + ["decorated", "resource", "vector", "namespace", "missing", "field"])
        target = {"resource": ".n.T.q", "vector": ".n.T.r", "namespace": ".n", "missing": "X", "decorated": "St", "field": ".n.St.f"}.get(kind, "X")
        in_t = "archive T" in text
        path = bool(env.boolean("path"))
        if path and kind not in ("resource", "vector", "namespace", "field"):
            target = ".n." + target
        decls = decl(kind, "X") if kind in KINDS else ""
        e = compile_schema("namespace n { enum En : u8 : 7 { P, Q } struct St { f : u8 : 7; } struct Sv { g : u8; } %s %s }" % (decls, text % target))
        ok = kind in good
        if "struct" in good:
            ok = ok or kind == "decorated"
        if "resource" in good and kind == "vector":
            ok = in_t
        if position == "multivector" and kind == "decorated":
            ok = False               # the same structure twice
        env.prove((e is not None) == ok, "references to declarations of another kind are refused (%s)" % kind)
    return scenario


def cycles(n, edges):
    """archives containing archives"""
    def scenario(env):
        to = [[env.int_in("to%d_%d" % (i, j), 0, n).__index__() for j in range(edges)] for i in range(n)]
        text = ""
        for i in range(n):
            text += "archive A%d { own : raw_data; %s } " % (i, " ".join("s%d : archive A%d;" % (j, t) for j, t in enumerate(to[i]) if t < n))
        reach = [set(t for t in row if t < n) for row in to]
        for _ in range(n):
            for r in reach:
                for t in list(r):
                    r |= reach[t]
        e = compile_schema("namespace n { %s }" % text)
        env.prove((e is not None) == (not any(i in reach[i] for i in range(n))), "archives which contain themselves are refused, others are not")
    return scenario


def ranges(env):
    """a range has a name of its own, is not optional, and its structure is stored in vectors only"""
    r1, r2 = pick(env, "range1", ["", "ra", "rb", "f1", "f2"]), pick(env, "range2", ["", "ra", "rb", "f1", "f2"])
    o1, o2 = bool(env.boolean("optional1")), bool(env.boolean("optional2"))
    res = pick(env, "resource", ["vector< %s >", "%s", "multivector< 8, %s >", "raw_data"])
    plain = bool(env.boolean("plain"))
    def field(k, r, o):
        return "%s %s f%d : u32 : 9;" % ("@range( %s )" % r if r else "", "@optional( NONE )" if o else "", k)
    text = "namespace n { const u32 NONE = 511; struct P { p : u8; } struct S { %s %s f3 : u8; } archive A { r : %s; } }" % (
        field(1, r1, o1), field(2, r2, o2), res % (("P" if plain else "S",) if "%s" in res else ()))
    e = compile_schema(text)
    bad = any(r in ("f1", "f2") for r in (r1, r2)) or (r1 and o1) or (r2 and o2) or (r1 and r1 == r2)
    bad = bad or ((r1 or r2) and not plain and res in ("%s", "multivector< 8, %s >"))
    env.prove((e is not None) == (not bad), "ranges are accepted exactly where they can be read")
    if e is not None:
        s = e.tree.find(".n.S")
        env.prove([f.range or "" for f in s.fields] == [r1, r2, ""], "the ranges are those declared")


def build():
    hs = []
    P = dict(validate=2, max_paths=60000, concretise_limit=60000)
    for i, a in enumerate(KINDS):
        for b in KINDS[i:]:
            hs.append(PyHarness("duplicate/%s/%s" % (a, b), duplicates((a, b)), GEN_FUNCS, "two declarations of any kind, names and namespaces symbolic", weight=5, **P))
    for w in ("struct", "archive"):
        hs.append(PyHarness("members/" + w, members(w), GEN_FUNCS, "three members, names symbolic", **P))
    for n in (1, 2) + tier((), (3,)):
        hs.append(PyHarness("stored/%d" % n, stored(n), GEN_FUNCS, "up to two (three) resources of every kind, names symbolic", weight=9, **P))
    hs.append(PyHarness("resolution", resolution, GEN_FUNCS, "one name declared or not in four namespaces, relative and absolute references from three of them", weight=9, **P))
    hs.append(PyHarness("shadow", shadow, GEN_FUNCS, "references to resources of the own and another archive, with declarations of the same name in the namespace", **P))
    for p in POSITIONS:
        hs.append(PyHarness("kind/" + p, kinds(p), GEN_FUNCS, "every position of a reference, targets of every kind", **P))
    for n, e in ((1, 1), (2, 2), (3, 1)) + tier((), ((3, 2), (4, 1))):
        hs.append(PyHarness("cycle/%d/%d" % (n, e), cycles(n, e), GEN_FUNCS, "up to 3 (4) archives with up to 2 sub-archives each", weight=8, **P))
    hs.append(PyHarness("ranges", ranges, GEN_FUNCS, "two fields with or without range and optional value, every kind of resource", weight=9, **P))
    return hs


main("G06", build, ["names are taken from small sets: the code compares names only for equality, and looks them up by path"],
     "names with characters of other classes; documentation comments")
