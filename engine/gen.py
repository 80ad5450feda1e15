"""Helpers shared by the schema-compiler checks."""
from common import *
from flatdata.generator.engine import Engine
from flatdata.generator.tree.errors import FlatdataSyntaxError
import flatdata.generator.tree.builder          # noqa: F401 (shimmed)
import flatdata.generator.app                   # noqa: F401

TYPES = {"bool": (1, False), "u8": (8, False), "i8": (8, True), "u16": (16, False), "i16": (16, True),
         "u32": (32, False), "i32": (32, True), "u64": (64, False), "i64": (64, True)}

GEN_FUNCS = ["flatdata.generator.grammar.*", "flatdata.generator.tree.builder.build_ast",
             "flatdata.generator.tree.nodes.*", "flatdata.generator.tree.helpers.*",
             "flatdata.generator.tree.resolver.*"]


def compile_schema(schema):
    """Engine or None when rejected with a schema error."""
    try:
        return Engine(schema)
    except FlatdataSyntaxError:
        return None


def python_classes(engine):
    """Runs the generated Python module; returns its globals."""
    code = engine.render("py")
    d = {"__name__": "generated"}
    exec(code, d)
    return d


def fits(v, width, signed):
    """v (possibly symbolic) representable in `width` bits (possibly symbolic)."""
    if signed:
        lim = 2 ** (width - 1)
        return (v >= 0 - lim) & (v < lim)
    return (v >= 0) & (v < 2 ** width)


def bool_and(a, b):
    return a & b


def err_name(f):
    try:
        f()
        return None
    except FlatdataSyntaxError as e:
        return type(e).__name__
