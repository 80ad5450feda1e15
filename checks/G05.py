"""G05: normalised schemas."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from gen import *
from flatdata.generator.tree.nodes.archive import Archive
from flatdata.generator.tree.nodes.trivial import Structure, Constant, Enumeration
from flatdata.generator.tree.nodes.resources import BoundResource


def describe(node):
    """Meaning of a definition: everything that affects the data or its interpretation."""
    if isinstance(node, Constant):
        return ["const", node.path, node.type.name, node.value]
    if isinstance(node, Enumeration):
        return ["enum", node.path, node.type.name, node.type.width,
                sorted_values([[v.name, v.value, v.auto_generated] for v in node.values])]
    if isinstance(node, Structure):
        return ["struct", node.path, node.size_in_bits,
                [[f.name, f.offset, f.type.width, f.type.is_signed, f.type.name, f.range or "",
                  f.invalid_value.target if f.invalid_value else "",
                  [r.target for r in f.const_value_refs]] for f in node.fields]]
    if isinstance(node, Archive):
        out = ["archive", node.path]
        for r in sorted(node.resources, key=lambda r: isinstance(r, BoundResource)):
            if isinstance(r, BoundResource):
                out.append(["bound", r.name, [c.target for c in r.children]])
                continue
            item = [type(r).__name__, r.name, r.optional,
                    [s.target for s in r.referenced_structures],
                    [[e.structure.target, e.field.target, e.destination.target] for e in r.explicit_references]]
            if hasattr(r, "target"):
                item.append(r.target.target)
            if hasattr(r, "width"):
                item.append(r.width)
            item.append(-1 if r.max_size is None else r.max_size)
            out.append(item)
        return out
    return None


def sorted_values(v):
    return v


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            for z in flat(y):
                yield z
        yield "]"
    else:
        yield x


def same(env, a, b, label):
    fa, fb = list(flat(a)), list(flat(b))
    env.prove(len(fa) == len(fb), label)
    conj = []
    for x, y in zip(fa, fb):
        if isinstance(x, str) or isinstance(y, str):
            # names may contain rendered literals (index structures)
            env.same_text(str(x), str(y), label)
        else:
            conj.append(x == y)
    env.prove(env.all(*conj), label)


def definitions(engine, builtin=False):
    return [n for n in engine.tree.root.iterate() if isinstance(n, (Constant, Enumeration, Structure, Archive))
            and (builtin or "._builtin." not in n.path + ".")]


T_FULL = """
/* free */
namespace a {{
/** k doc with "quotes" and \\ */ const u8 K = {k};
const i16 N = {n};
enum E : u8 : 2 {{ A, /** b */ B = {e0}, C }}
enum S : i8 : 2 {{ M = {e1} }}
/** struct */
struct T {{
  /** f doc */ @range( xs ) x : u32 : {w0};
  @const( K ) y : u8 : {w1}; e : E;
  @optional( N ) z : i16 : {w2};
  s : S : 2;
}}
}}
namespace b.c {{
const u64 GLOBAL = 0x10;
struct Q {{ a : u8; b : u64 : {w3}; c : .a.E; }}
archive Sub {{ i : Q; }}
@bound_implicitly( bb : v, m )
archive A {{
 /** res doc "quoted" \\ */
 @explicit_reference( .a.T.x, m ) @explicit_reference( .a.T.y, w )
 v : vector< .a.T >;
 m : multivector< {w4}, Q, .d.R >;
 @optional @explicit_reference( Q.b, v ) w : vector< Q >;
 @optional i : Q; @optional raw : raw_data; raw2 : raw_data;
 sub : archive Sub; @optional osub : archive b.c.Sub;
}}
archive Other {{ q : vector< Q >; }}
}}
namespace d {{ struct R {{ only : i64 : {w5}; }} }}
""".replace("archive b.c.Sub", "archive .b.c.Sub")

T_SMALL = """
namespace n {{ const i32 P = {n}; struct A {{ p : i32 : {w0}; q : u16 : {w1}; }}
namespace_less : 0 }}
""".replace("namespace_less : 0 ", "archive X {{ @explicit_reference( A.q, x ) x : vector< A >; y : A; z : multivector< {w4}, A >; }}")

T_DECO = """
namespace p.q.r {{
const u8 C1 = {k}; const u8 C2 = 7; const i8 INV = {e1};
struct D {{ @const( C1 ) @const( C2 ) @optional( C3 ) f : u8 : {w1}; @optional( INV ) g : i8 : {w2}; h : bool; }}
const u8 C3 = 1;
archive Z {{ @optional @explicit_reference( D.f, other ) r : multivector< {w4}, D >; other : raw_data; one : D; @optional z : archive .o.Y; }}
}}
namespace o {{ struct E {{ v : u32 : {w3}; }} @bound_implicitly( all : one, two ) archive Y {{ one : vector< E >; two : vector< E >; }} }}
"""

T_NAMES = """
namespace _own {{ struct _T {{ _a : u8 : {w1}; a1 : u16 : 3; }} struct T_ {{ b_ : i8 : {w2}; }} const u8 _K = {k}; enum _E : u8 : 2 {{ _A, A1 }}
@bound_implicitly( _b : v, structs ) archive _A {{ m : multivector< {w4}, T_, _T >; @explicit_reference( _T._a, _r ) v : vector< _T >;
 structs : vector< T_ >; _r : raw_data; i : .builtin._builtin_.vector_; sub : archive .builtin._builtin_.archive_; n : multivector< {w4}, .builtin._builtin_.vector_ >; }} }}
namespace builtin._builtin_ {{ struct vector_ {{ u8_ : u8 : 8; e : ._own._E; @const( ._own._K ) k : u8 : 8; }}
archive archive_ {{ optional : vector< vector_ >; @optional raw_data_ : raw_data; _ : multivector< {w4}, vector_, ._own._T >; }} }}
"""

RANGES = dict(k=(0, 255), n=(-32768, 32767), e0=(1, 2), e1=(-2, 1), w0=(1, 32), w1=(1, 8), w2=(1, 8),
              w3=(1, 32), w4=(1, 64), w5=(1, 64))


def normal(template, concrete):
    """concrete: names kept at a fixed value (the others are symbolic)."""
    def scenario(env):
        vals = {}
        for name, (lo, hi) in RANGES.items():
            if "{%s}" % name not in template:
                continue
            vals[name] = concrete[name] if name in concrete else env.int_in(name, lo, hi)
        schema = template.format(**{k: env.literal(v) for k, v in vals.items()})
        e1 = compile_schema(schema)
        if e1 is None:
            env.prove(True, "rejected input")
            return
        text = e1.render("flatdata")
        e2 = compile_schema(text)
        env.prove(e2 is not None, "the normalised schema is accepted")
        if e2 is None:
            return
        env.same_text(text, e2.render("flatdata"), "normalising twice changes nothing")
        d1 = sorted([describe(n) for n in definitions(e1)], key=lambda d: str(d[1]))
        d2 = sorted([describe(n) for n in definitions(e2)], key=lambda d: str(d[1]))
        same(env, d1, d2, "the normalised schema describes the same definitions")
        # schema stored with an archive
        mod = python_classes(e1)
        for a in [n for n in definitions(e1) if isinstance(n, Archive)]:
            st = e1.tree.schema(a)
            ea = compile_schema(st)
            env.prove(ea is not None, "the schema stored with an archive is accepted")
            if ea is None:
                continue
            want = {d.path: d for d in definitions(e1)}
            got = [n for n in definitions(ea) if not isinstance(n, Constant)]
            env.prove(a.path in [n.path for n in got], "archive contained in its schema")
            for n in got:
                same(env, describe(n), describe(want[n.path]), "stored schema describes the archive")
            env.same_text(st, ea.tree.schema(ea.tree.find(a.path)), "stored schema is in normal form")
            used = [c.value for c in ea.tree.root.iterate(Constant)]
            for n in ea.tree.root.iterate(Constant):
                same(env, describe(n), describe(want[n.path]), "constants keep their value")
            py = mod[e1.tree.namespace_path(a, "_") + "_" + a.name]
            bld = mod[e1.tree.namespace_path(a, "_") + "_" + a.name + "Builder"]
            for cls in (py, bld):
                env.same_text(cls.schema(), st, "embedded archive schema")
                for r in a.resources:
                    if isinstance(r, BoundResource):
                        continue
                    rs = e1.tree.schema(r)
                    env.same_text(cls._RESOURCES[r.name].schema, rs, "embedded resource schema")
                    env.prove(cls._RESOURCES[r.name].is_optional == r.optional, "optional flag")
                    if not r.explicit_references:
                        er = compile_schema(rs)
                        env.prove(er is not None, "a resource schema is a schema")
                        if er is not None:
                            for n in definitions(er):
                                if isinstance(n, Archive):
                                    if n.path == a.path:
                                        env.prove([x.name for x in n.resources] == [r.name], "exactly that resource")
                                elif not isinstance(n, Constant):
                                    same(env, describe(n), describe(want[n.path]), "resource schema structures")
                            need = {s.path for s in e1.tree.dependent_types(r) if isinstance(s, (Structure, Enumeration))
                                    and "._builtin." not in s.path}
                            env.prove(need <= {n.path for n in definitions(er)}, "all needed types are part of the schema")
    return scenario


def build():
    F = GEN_FUNCS + ["flatdata.generator.generators.flatdata.*", "flatdata.generator.tree.syntax_tree.SyntaxTree.schema",
                     "templates/flatdata/*.jinja2", "templates/py/python.jinja2"]
    B = "four schema shapes covering every construct; all widths, constants and enumerator values symbolic (two or more at a time)"
    base = dict(k=3, n=-4, e0=2, e1=-1, w0=20, w1=4, w2=7, w3=17, w4=33, w5=64)
    hs = []

    def add(name, tpl, free, weight=1):
        conc = {k: v for k, v in base.items() if k not in free}
        hs.append(PyHarness(name, normal(tpl, conc), F, B, validate=3, weight=weight))
    for free in ("w0 w3", "w4 w5", "k w1", "n w2", "e0 e1", "w1 w5 w4", "w0 w1 w2 w3 w4 w5"):
        add("full/" + free.replace(" ", "+"), T_FULL, free.split(), 5)
    for free in ("n w0 w1", "w1 w4", "n w4 w0 w1"):
        add("small/" + free.replace(" ", "+"), T_SMALL, free.split())
    for free in ("k w1", "e1 w2", "w4 w3", "k e1 w1 w2 w3 w4"):
        add("deco/" + free.replace(" ", "+"), T_DECO, free.split(), 2)
    for free in ("k w1", "w2 w4", "w4 w1"):
        add("names/" + free.replace(" ", "+"), T_NAMES, free.split(), 2)
    if THOROUGH:
        add("full/all", T_FULL, list(base), 9)
        add("deco/all", T_DECO, list(base), 9)
    return hs


if __name__ == "__main__":
    main("G05", build, ["decimal literals of the schema stand for symbolic values; rendered numbers are compared as values"],
         ["identifiers are concrete", "comment texts are concrete (they are not part of a normalised schema)"])
