"""Loads the Python code under test with conditional assignments and returns made mergeable: when the condition is
symbolic and both outcomes are integers, the value becomes one if-then-else term instead of two paths. The meaning
of the code does not change: whatever cannot be merged runs as written."""
import ast
import builtins
import collections
import copy
import importlib.machinery
import os
import sys

OPS = (ast.BinOp, ast.UnaryOp, ast.Compare, ast.Subscript, ast.Attribute, ast.Name, ast.Constant, ast.IfExp,
       ast.operator, ast.unaryop, ast.cmpop, ast.expr_context, ast.BoolOp, ast.boolop)
TEXT = ("join", "format", "startswith", "endswith", "split", "rsplit", "partition", "rpartition", "find", "rfind", "index",
        "rindex", "count", "replace", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix")


def pure(e):
    for n in ast.walk(e):
        if not isinstance(n, OPS):
            return False
    return True


def fits(e):
    """an expression with one value, without calls"""
    return e is not None and pure(e)


def load(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def same(a, b):
    return ast.dump(load(a)) == ast.dump(load(b))


def simple_target(t):
    return isinstance(t, ast.Name) or (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and
                                       not isinstance(t.slice, ast.Slice) and pure(t.slice))


def assigned(stmts):
    """[(target, value)] of a list of plain assignments to different names or one other target"""
    out = []
    for s in stmts:
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = s.targets[0], s.value
        elif isinstance(s, ast.AugAssign):
            t, v = s.target, ast.BinOp(load(s.target), s.op, s.value)
        elif isinstance(s, ast.Pass):
            continue
        elif isinstance(s, ast.If):
            e = conditional(s)
            if e is None or len(e) != 1:
                return None
            t, v = e[0]
        else:
            return None
        if not simple_target(t) or not fits(v):
            return None
        out.append((t, v))
    if len(out) > 1:
        names = [t.id if isinstance(t, ast.Name) else None for t, _ in out]
        if None in names or len(set(names)) != len(names):
            return None
        for i, (_, v) in enumerate(out):
            if {n.id for n in ast.walk(v) if isinstance(n, ast.Name)} & set(names[:i]):
                return None
    return out


def conditional(s, nested=True):
    """[(target, value)] equivalent to an if statement of assignments"""
    a, b = assigned(s.body), assigned(s.orelse)
    if not a and not b or a is None or b is None or (nested and not fits(s.test)):
        return None
    ts = [t for t, _ in a]
    for t, _ in b:
        if not any(same(t, x) for x in ts):
            ts.append(t)
    if len(ts) > 1 and not all(isinstance(t, ast.Name) for t in ts):
        return None
    out = []
    for t in ts:
        va = [v for x, v in a if same(x, t)] or [load(t)]
        vb = [v for x, v in b if same(x, t)] or [load(t)]
        out.append((t, ast.IfExp(copy.deepcopy(s.test), va[0], vb[0])))
    return out


def returned(stmts, nested=True):
    if len(stmts) == 1 and isinstance(stmts[0], ast.Return) and fits(stmts[0].value):
        return stmts[0].value
    if len(stmts) == 1 and isinstance(stmts[0], ast.If):
        a, b = returned(stmts[0].body), returned(stmts[0].orelse)
        if a is not None and b is not None and (not nested or fits(stmts[0].test)):
            return ast.IfExp(stmts[0].test, a, b)
    return None


def thunk(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


def truth(e):
    """a test: the operands of `and`, `or`, `not` need not be decided one by one"""
    if isinstance(e, ast.BoolOp) and all(pure(v) for v in e.values[1:]):
        name = "_sym_and" if isinstance(e.op, ast.And) else "_sym_or"
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [thunk(truth(v)) for v in e.values], []), e)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return ast.copy_location(ast.Call(ast.Name("_sym_not", ast.Load()), [truth(e.operand)], []), e)
    return Lazy().visit(e)


class Lazy(ast.NodeTransformer):
    """conditional expressions to calls"""

    def visit_IfExp(self, n):
        ok = pure(n.body) and pure(n.orelse)
        n.test, n.body, n.orelse = truth(n.test), self.visit(n.body), self.visit(n.orelse)
        if not ok:
            return n
        return ast.Call(ast.Name("_sym_ite", ast.Load()), [n.test, thunk(n.body), thunk(n.orelse)], [])

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name in ("dict", "OrderedDict"):
            n.func = ast.Call(ast.Name("_sym_dict_type", ast.Load()), [f], [])
        elif name == "defaultdict" and n.args:
            n.func = ast.Call(ast.Name("_sym_dict_type", ast.Load()), [f], [])
        if isinstance(f, ast.Attribute) and f.attr in TEXT:
            return ast.Call(ast.Name("_sym_text", ast.Load()), [f.value, ast.Constant(f.attr), *n.args], n.keywords)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return ast.Call(ast.Name("_sym_dict", ast.Load()),
                        [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("_sym_dict", ast.Load()), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("_sym_set", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("_sym_set", ast.Load()), [ast.List(n.elts, ast.Load())], [])

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                conv = ast.Constant(chr(v.conversion) if v.conversion > 0 else None)
                parts.append(ast.Tuple([v.value, conv, v.format_spec or ast.Constant("")], ast.Load()))
            else:
                parts.append(v)
        return ast.Call(ast.Name("_sym_fstring", ast.Load()), parts, [])

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.Call(ast.Name("_sym_percent", ast.Load()), [n.left, n.right], [])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("_sym_in", ast.Load()), [n.left, n.comparators[0]], [])
            return c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
        return n


class Merge(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_ClassDef(self, n):
        """bodies of classes are left alone, their functions are not"""
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in n.body]
        return n

    def inner(self, s):
        for f in ("body", "orelse", "finalbody"):
            if getattr(s, f, None) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                setattr(s, f, self.block(getattr(s, f)))
        for h in getattr(s, "handlers", ()):
            h.body = self.block(h.body)
        for c in getattr(s, "cases", ()):
            c.body = self.block(c.body)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.visit(s)
        for f, v in list(ast.iter_fields(s)):
            if f == "test" and isinstance(s, (ast.If, ast.While)):
                s.test = truth(v)
            elif isinstance(v, ast.expr):
                setattr(s, f, Lazy().visit(v))
            elif f not in ("body", "orelse", "finalbody", "handlers", "cases") and isinstance(v, list):
                setattr(s, f, [Lazy().visit(x) if isinstance(x, ast.expr) else x for x in v])
        return s

    def block(self, stmts):
        out = []
        stmts = list(stmts)
        i = 0
        while i < len(stmts):
            s = stmts[i]
            i += 1
            if not isinstance(s, ast.If):
                out.append(self.inner(s))
                continue
            # if c: return a / return b
            if not s.orelse and i < len(stmts) and isinstance(stmts[i], ast.Return):
                a, b = returned(s.body), returned([stmts[i]])
                if a is not None and b is not None:
                    out.append(self.at(s, ast.Return(Lazy().visit(ast.IfExp(s.test, a, b)))))
                    i += 1
                    continue
            a = returned([s], False)
            if a is not None:
                out.append(self.at(s, ast.Return(Lazy().visit(a))))
                continue
            c = conditional(copy.deepcopy(s), False)
            if c is None:
                out.append(self.inner(s))
                continue
            k = "_m%d" % self.n
            self.n += 1
            # the condition is evaluated once; c's expressions are the arms
            arms = [(t, v.body, v.orelse) for t, v in c]
            yes = ast.Tuple([Lazy().visit(copy.deepcopy(a)) for _, a, _ in arms], ast.Load())
            no = ast.Tuple([Lazy().visit(copy.deepcopy(b)) for _, _, b in arms], ast.Load())
            test = s.test
            out.append(self.at(s, ast.Assign([ast.Name(k, ast.Store())], truth(test))))
            out.append(self.at(s, ast.Assign([ast.Name(k + "r", ast.Store())],
                                             ast.Call(ast.Name("_sym_merge", ast.Load()),
                                                      [ast.Name(k, ast.Load()), thunk(yes), thunk(no)], []))))
            done = [self.at(s, ast.Assign([t], ast.Subscript(ast.Name(k + "r", ast.Load()), ast.Constant(j), ast.Load())))
                    for j, (t, _, _) in enumerate(arms)]
            s.test = ast.Name(k, ast.Load())
            out.append(self.at(s, ast.If(ast.Compare(ast.Name(k + "r", ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                                         done, [self.at(s, self.inner(s))])))
        return out

    @staticmethod
    def at(s, n):
        return ast.fix_missing_locations(ast.copy_location(n, s))


def transform(text, path):
    tree = ast.parse(text, path)
    return ast.fix_missing_locations(Merge().visit(tree))


# ------------------------------------------------------------------------------------ at run time

class Speculation(BaseException):
    pass


def _plain(c):
    import pysym
    return type(c) is not pysym.SymBool and type(c) is not pysym.SymInt


def _speculate(c, yes, no):
    """values of both arms, or None where one of them forks, raises or is no integer"""
    import pysym
    ex = pysym._ex()
    before = ex.speculating
    ex.speculating = True
    try:
        a, b = yes(), no()
    except (Speculation, Exception):
        return None
    finally:
        ex.speculating = before
    a, b = (x if type(x) is tuple else (x,) for x in (a, b))
    ok = (int, bool, pysym.SymInt, pysym.SymBool)
    if not all(type(x) in ok for x in a + b):
        return None
    return tuple(pysym.merged(c, x, y) for x, y in zip(a, b))


def sym_merge(c, yes, no):
    return None if _plain(c) else _speculate(c, yes, no)


def sym_ite(c, yes, no):
    if not _plain(c):
        r = _speculate(c, yes, no)
        if r is not None:
            return r[0]
    return yes() if c else no()


def _logic(fs, absorbing):
    """and (absorbing False), or (absorbing True) of tests"""
    import pysym
    done = []
    for i, f in enumerate(fs):
        if not done:
            v = f()
        else:
            ex = pysym._ex()
            before = ex.speculating
            ex.speculating = True
            try:
                v = f()
                if type(v) not in (int, bool, pysym.SymInt, pysym.SymBool):
                    v = bool(v)
            except (Speculation, Exception):
                v = None
            finally:
                ex.speculating = before
            if v is None:       # decide the operands so far, then go on as written
                if bool(pysym.all_of(done, absorbing)) == absorbing:
                    return absorbing
                done, v = [], f()
        if _plain(v):
            if bool(v) == absorbing:
                return absorbing if not done else pysym.all_of(done + [absorbing], absorbing)
            continue
        done.append(v)
    return pysym.all_of(done, absorbing) if done else not absorbing


def sym_and(*fs):
    return _logic(fs, False)


def sym_or(*fs):
    return _logic(fs, True)


def sym_not(v):
    if _plain(v):
        return not v
    import pysym
    return pysym.all_of([v], False, True)


def sym_text(o, name, /, *a, **k):
    import pysym
    return pysym.text_method(o, name, a, k)


def sym_fstring(*parts):
    import pysym
    return pysym.fstring(*parts)


def sym_percent(a, b):
    if type(a) is not str:
        return a % b
    import pysym
    return pysym.percent(a, b)


def sym_dict(items):
    if not active():
        return dict(items)
    import pysym
    return pysym.SymDict(items)


def sym_dict_type(t):
    if t not in (dict, collections.OrderedDict, collections.defaultdict) or not active():
        return t
    import pysym
    return pysym.SymDefaultDict if t is collections.defaultdict else pysym.SymDict


def active():
    return "pysym" in sys.modules and sys.modules["pysym"]._State.explorer is not None


def sym_set(items):
    if not active():
        return set(items)
    import pysym
    return pysym.ShimSet(items)


def sym_in(x, o):
    import pysym
    return pysym.contains(x, o)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(transform(self.get_data(path), path), path, "exec", dont_inherit=True)


class Finder:
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("flatdata."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader and \
                os.path.realpath(spec.origin).startswith(os.path.realpath(self.repo)):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(repo):
    builtins._sym_dict, builtins._sym_set, builtins._sym_dict_type = sym_dict, sym_set, sym_dict_type
    builtins._sym_ite, builtins._sym_merge = sym_ite, sym_merge
    builtins._sym_and, builtins._sym_or, builtins._sym_not = sym_and, sym_or, sym_not
    builtins._sym_text, builtins._sym_fstring, builtins._sym_percent, builtins._sym_in = sym_text, sym_fstring, sym_percent, sym_in
    sys.meta_path.insert(0, Finder(repo))
