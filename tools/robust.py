#!/opt/venv/bin/python
"""robust.py [-k KIND,..] ID...: run checks on sources rewritten by behaviour-preserving transformations.

Every function of the program is rewritten in the parsed tree (nothing on disk changes); a check has to stay quiet.
A development aid: no registered command uses it.
"""
import ast
import copy
import importlib
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import program  # noqa: E402
from sa.program import AnalysisBroken, Program  # noqa: E402


def fresh(tree):
    n = [0]

    def new(p="t"):
        n[0] += 1
        return "_%s%d_" % (p, n[0])
    return new


def name(i, store=False):
    return ast.Name(i, ast.Store() if store else ast.Load())


def blocks(n):
    for f in ("body", "orelse", "finalbody"):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield f, b
    for h in getattr(n, "handlers", []):
        yield from blocks(h)


def map_blocks(fn, g):
    """Apply g to every statement list inside a function (innermost first)."""
    def go(n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        go(s)
                setattr(n, f, g(b))
        for h in getattr(n, "handlers", []):
            go(h)
    go(fn)


def is_decl(s):
    return isinstance(s, ast.AnnAssign) or not isinstance(s, (
        ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For, ast.While, ast.Return, ast.Raise, ast.With, ast.Try))


def simple(e):
    return isinstance(e, (ast.Constant, ast.Name))


def stringy(e):
    return any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp, ast.Dict)) or
               isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in ast.walk(e))


class T:
    def __init__(self, tree):
        self.new = fresh(tree)

    def cls_body(self, c):
        pass

    def fn(self, f, c):
        pass


class noop(T):
    def fn(self, f, c):
        i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.Assign([name(self.new("n"), True)], ast.Constant(0)))


class aug(T):
    def fn(self, f, c):
        def g(b):
            out = []
            for s in b:
                if isinstance(s, ast.AugAssign) and (isinstance(s.target, ast.Name) and not stringy(s.value) or isinstance(
                        s.target, ast.Subscript) and not isinstance(s.target.slice, ast.Slice)):
                    t = copy.deepcopy(s.target)
                    for x in ast.walk(t):
                        if x is t and hasattr(x, "ctx"):
                            x.ctx = ast.Load()
                    s = ast.copy_location(ast.Assign([s.target], ast.BinOp(t, s.op, s.value)), s)
                out.append(s)
            return out
        map_blocks(f, g)


class swapif(T):
    def fn(self, f, c):
        def g(b):
            for s in b:
                if isinstance(s, ast.If) and s.orelse:
                    s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
            return b
        map_blocks(f, g)


class temp(T):
    def fn(self, f, c):
        def g(b):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                    t = self.new("r")
                    out.append(ast.copy_location(ast.Assign([name(t, True)], s.value), s))
                    s.value = name(t)
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)) \
                        and not simple(s.value):
                    t = self.new("v")
                    out.append(ast.copy_location(ast.Assign([name(t, True)], s.value), s))
                    s.value = name(t)
                out.append(s)
            return out
        map_blocks(f, g)


class enum2range(T):
    def fn(self, f, c):
        def g(b):
            for s in b:
                if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                        s.iter.func.id == "enumerate" and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and \
                        isinstance(s.iter.args[0], ast.Attribute) and s.iter.args[0].attr in ("combinations", "_nodes", "nodes", "sublinks", "_lags"):
                    e = s.iter.args[0]
                    i, x = s.target.elts
                    s.target = i
                    s.iter = ast.Call(name("range"), [ast.Call(name("len"), [copy.deepcopy(e)], [])], [])
                    s.body.insert(0, ast.copy_location(ast.Assign([x], ast.Subscript(e, name(i.id), ast.Load())), s))
            return b
        map_blocks(f, g)


class comp2loop(T):
    def fn(self, f, c):
        def g(b):
            out = []
            for s in b:
                v = getattr(s, "value", None)
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
                    t = self.new("l")
                    gen = v.generators[0]
                    body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))]
                    for q in reversed(gen.ifs):
                        body = [ast.If(q, body, [])]
                    out.append(ast.copy_location(ast.Assign([name(t, True)], ast.List([], ast.Load())), s))
                    out.append(ast.copy_location(ast.For(gen.target, gen.iter, body, []), s))
                    s.value = name(t)
                out.append(s)
            return out
        map_blocks(f, g)


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class early(T):
    """code after an if that leaves moves into its else"""
    def fn(self, f, c):
        def g(b):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and ends(s.body) and b[i + 1:]:
                    s.orelse = g(b[i + 1:])
                    return b[:i + 1]
            return b
        map_blocks(f, g)


class late(T):
    """else of an if that leaves becomes the code after it"""
    def fn(self, f, c):
        def g(b):
            out = []
            for i, s in enumerate(b):
                out.append(s)
                if isinstance(s, ast.If) and s.orelse and ends(s.body):
                    out += s.orelse
                    s.orelse = []
            return out
        map_blocks(f, g)


class guard(T):
    """if at the end of a loop body -> continue; if at the end of a function -> return"""
    def fn(self, f, c):
        def go(n):
            for s in getattr(n, "body", []) + getattr(n, "orelse", []):
                if isinstance(s, (ast.For, ast.While, ast.If, ast.With)):
                    go(s)
                if isinstance(s, (ast.For, ast.While)) and s.body and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse:
                    last = s.body.pop()
                    s.body += [ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], []), last)] + last.body
        go(f)
        if isinstance(f.body[-1], ast.If) and not f.body[-1].orelse and not any(isinstance(x, (ast.Yield, ast.Return)) for x in ast.walk(f)):
            last = f.body.pop()
            f.body += [ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Return(None)], []), last)] + last.body


class extract(T):
    """the body of a method moves to a new method"""
    skip = ("__init__", "__cinit__", "__dealloc__", "load", "register")

    def cls_body(self, c):
        for s in list(c.body):
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == "self" and s.name not in self.skip and \
                    not s.decorator_list and getattr(s, "cy_kind", "def") != "decl" and len(s.body) > 1 and not s.name.startswith("__") \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and not s.args.vararg and not s.args.kwarg \
                    and not s.args.kwonlyargs and not getattr(s, "cy_prop", None):
                h = copy.deepcopy(s)
                h.name = "_%s_%s_impl" % (c.name.lower(), s.name)
                h.args.defaults = []
                call = ast.Call(ast.Attribute(name("self"), h.name, ast.Load()), [name(a.arg) for a in s.args.args[1:]], [])
                s.body = [ast.copy_location(ast.Return(call), s.body[0])]
                c.body.append(h)


class tail(T):
    """the last statements of a method move to a new method taking the locals"""
    def cls_body(self, c):
        for s in list(c.body):
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == "self" and not s.name.startswith("__") and \
                    not s.decorator_list and getattr(s, "cy_kind", "def") != "decl" and len(s.body) > 3 \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda)) for b in s.body for x in ast.walk(b)) \
                    and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs:
                k = len(s.body) // 2 + 1
                head, rest = s.body[:k], s.body[k:]
                if not rest or any(isinstance(x, ast.Return) for b in head for x in ast.walk(b)):
                    continue
                defd = {x.id for b in head for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                defd |= {b.target.id for b in head if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)}
                used = {x.id for b in rest for x in ast.walk(b) if isinstance(x, ast.Name)}
                if any(isinstance(x, ast.Name) and x.id == "super" for b in rest for x in ast.walk(b)):
                    continue
                decl = [b for b in head if isinstance(b, ast.AnnAssign) and b.value is None]
                real = {x.id for b in head if b not in decl for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                stored = {x.id for b in rest for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                passed = sorted((defd & used & real))
                h = copy.deepcopy(s)
                h.name = "_%s_%s_rest" % (c.name.lower(), s.name)
                h.args.defaults = []
                h.args.args += [ast.arg(x, None) for x in passed]
                h.body = copy.deepcopy([d for d in decl if d.target.id not in passed]) + rest
                call = ast.Call(ast.Attribute(name("self"), h.name, ast.Load()),
                                [name(a.arg) for a in s.args.args[1:]] + [name(x) for x in passed], [])
                s.body = head + [ast.copy_location(ast.Return(call), rest[0])]
                c.body.append(h)


class rename(T):
    def fn(self, f, c):
        ps = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
        if f.args.vararg:
            ps.add(f.args.vararg.arg)
        if f.args.kwarg:
            ps.add(f.args.kwarg.arg)
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) for b in f.body for x in ast.walk(b)):
            return
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "locals" for x in ast.walk(f)):
            return
        loc = {x.id for b in f.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - ps
        loc |= {h.name for b in f.body for h in ast.walk(b) if isinstance(h, ast.ExceptHandler) and h.name}
        for b in f.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id += "_zz"
                elif isinstance(x, ast.ExceptHandler) and x.name in loc:
                    x.name += "_zz"


class reorder(T):
    """adjacent independent assignments of constants to different fields swap"""
    def fn(self, f, c):
        def g(b):
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if all(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name)
                       and s.targets[0].attr.startswith("_") and len(s.targets) == 1 and simple(s.value) for s in (x, y)) \
                        and x.targets[0].attr != y.targets[0].attr:
                    b[i], b[i + 1] = y, x
                    i += 1
                i += 1
            return b
        map_blocks(f, g)


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class flip(T):
    def fn(self, f, c):
        for x in ast.walk(f):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in FLIP and not isinstance(x.left, ast.Call) \
                    and not isinstance(x.comparators[0], ast.Call):
                x.left, x.comparators[0] = x.comparators[0], x.left
                x.ops[0] = FLIP[type(x.ops[0])]()


class commute(T):
    def fn(self, f, c):
        for x in ast.walk(f):
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Mult)) and not stringy(x.left) and not stringy(x.right) \
                    and getattr(self, "num", True):
                x.left, x.right = x.right, x.left


class while_(T):
    def fn(self, f, c):
        def g(b):
            out = []
            for s in b:
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(
                        s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 and not s.orelse and not any(
                        isinstance(x, (ast.Continue, ast.Break)) for y in s.body for x in ast.walk(y)):
                    i = s.target.id
                    t = self.new("end")
                    out += [ast.copy_location(ast.Assign([name(i, True)], ast.Constant(0)), s),
                            ast.copy_location(ast.Assign([name(t, True)], s.iter.args[0]), s)]
                    s = ast.copy_location(ast.While(ast.Compare(name(i), [ast.Lt()], [name(t)]), s.body + [
                        ast.Assign([name(i, True)], ast.BinOp(name(i), ast.Add(), ast.Constant(1)))], []), s)
                out.append(s)
            return out
        map_blocks(f, g)


class ternary(T):
    def fn(self, f, c):
        def g(b):
            out = []
            for s in b:
                if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                    x, y = s.body[0], s.orelse[0]
                    if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and len(x.targets) == 1 and \
                            ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and isinstance(x.targets[0], (ast.Name, ast.Attribute)):
                        s = ast.copy_location(ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value)), s)
                    elif isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                        s = ast.copy_location(ast.Return(ast.IfExp(s.test, x.value, y.value)), s)
                out.append(s)
            return out
        map_blocks(f, g)


class unternary(T):
    def fn(self, f, c):
        def g(b):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                    e = s.value
                    a, d = copy.deepcopy(s), s
                    a.value, d.value = e.body, e.orelse
                    s = ast.copy_location(ast.If(e.test, [a], [d]), s)
                out.append(s)
            return out
        map_blocks(f, g)


class alias(T):
    """self.model gets a local name"""
    def fn(self, f, c):
        if c is None or f.name.startswith("__") or not f.args.args or f.args.args[0].arg != "self" or f.name in ("model", "setup", "load"):
            return
        u = [x for x in ast.walk(f) if isinstance(x, ast.Attribute) and x.attr == "model" and isinstance(x.value, ast.Name) and x.value.id == "self"]
        if not u or any(isinstance(x.ctx, ast.Store) for x in u) or any(isinstance(x, ast.Lambda) for x in ast.walk(f)):
            return
        t = self.new("m")
        for x in ast.walk(f):
            for k, v in ast.iter_fields(x):
                if isinstance(v, list):
                    for j, y in enumerate(v):
                        if y in u:
                            v[j] = name(t)
                elif v in u:
                    setattr(x, k, name(t))
        i = 0
        while i < len(f.body) and not any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(f.body[i])) and (is_decl(f.body[i]) and not isinstance(f.body[i], ast.Pass) or isinstance(f.body[i], ast.Expr) and isinstance(f.body[i].value, ast.Constant)):
            i += 1
        f.body.insert(i, ast.Assign([name(t, True)], ast.Attribute(name("self"), "model", ast.Load())))


class nestand(T):
    """if a and b (no else) -> if a: if b"""
    def fn(self, f, c):
        def g(b):
            for s in b:
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                    vs = s.test.values
                    s.test = vs[0]
                    s.body = [ast.copy_location(ast.If(vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), s.body, []), s)]
            return b
        map_blocks(f, g)


class elif_(T):
    """return chains: elif after a returning branch becomes if"""
    fn = late.fn


class demorgan(T):
    def fn(self, f, c):
        for x in ast.walk(f):
            if isinstance(x, (ast.If, ast.While, ast.IfExp)) and isinstance(x.test, ast.BoolOp) and isinstance(x.test.op, ast.And):
                x.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), v) for v in x.test.values]))


class boolvar(T):
    """the test of an if gets a name"""
    def fn(self, f, c):
        def g(b):
            out = []
            for s in b:
                if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp)):
                    t = self.new("c")
                    out.append(ast.copy_location(ast.Assign([name(t, True)], s.test), s))
                    s.test = name(t)
                out.append(s)
            return out
        map_blocks(f, g)


class hoist(T):
    """attribute chains read in a loop get a local name before it (when the function stores no such attribute)"""
    def fn(self, f, c):
        stored = {x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}

        def g(b):
            out = []
            for s in b:
                if isinstance(s, ast.For):
                    cand = {}
                    for y in s.body:
                        for x in ast.walk(y):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and \
                                    x.value.id == "self" and x.attr.startswith("_") and x.attr not in stored and not x.attr.startswith("__"):
                                cand.setdefault(x.attr, []).append(x)
                    called = {id(x.func) for y in s.body for x in ast.walk(y) if isinstance(x, ast.Call)}
                    for a, xs in sorted(cand.items()):
                        if any(id(x) in called for x in xs) or len(out) > 200:
                            continue
                        t = self.new("h")
                        out.append(ast.copy_location(ast.Assign([name(t, True)], ast.Attribute(name("self"), a, ast.Load())), s))
                        for y in s.body:
                            for x in ast.walk(y):
                                for k, v in ast.iter_fields(x):
                                    if isinstance(v, list):
                                        for j, z in enumerate(v):
                                            if any(z is w for w in xs):
                                                v[j] = name(t)
                                    elif any(v is w for w in xs):
                                        setattr(x, k, name(t))
                out.append(s)
            return out
        map_blocks(f, g)


class fission(T):
    """a loop over two independent element assignments becomes two loops"""
    def fn(self, f, c):
        def key(s):
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AugAssign) else None
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                return t.value.attr
            return None

        def g(b):
            out = []
            for s in b:
                if isinstance(s, ast.For) and len(s.body) == 2 and not s.orelse:
                    x, y = s.body
                    a, d = key(x), key(y)
                    reads = {z.attr for w in (x, y) for z in ast.walk(w.value) if isinstance(z, ast.Attribute)} if a and d else ()
                    if a and d and a != d and a not in reads and d not in reads:
                        s2 = copy.deepcopy(s)
                        s.body, s2.body = [x], [y]
                        out.append(s)
                        s = s2
                out.append(s)
            return out
        map_blocks(f, g)


class exprfn(T):
    """the arithmetic of a field assignment moves to a function of the module"""
    top = None

    def fn(self, f, c):
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
            a.arg for a in f.args.args + f.args.kwonlyargs}

        def g(b):
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp) and not stringy(s.value) and not any(
                        isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) or isinstance(x, ast.Call) and
                        isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(s.value)):
                    us = sorted({x.id for x in ast.walk(s.value) if isinstance(x, ast.Name) and x.id in loc})
                    n = self.new("fun")
                    fn = ast.FunctionDef(n, ast.arguments([], [ast.arg(u, None) for u in us], None, [], [], None, []),
                                         [ast.copy_location(ast.Return(s.value), s)], [])
                    fn.cy_kind, fn.cy_ret, fn.cy_exc, fn.type_params = "def", None, None, []
                    ast.copy_location(fn, s)
                    self.top.append(fn)
                    s.value = ast.copy_location(ast.Call(name(n), [name(u) for u in us], []), s.value)
            return b
        map_blocks(f, g)


class keep(T):
    """an unused local computed first"""
    def fn(self, f, c):
        if f.args.args and f.args.args[0].arg == "self" and not f.name.startswith("__"):
            i = 0
            while i < len(f.body) and (is_decl(f.body[i]) or isinstance(f.body[i], ast.Expr) and isinstance(f.body[i].value, ast.Constant)):
                i += 1
            f.body.insert(i, ast.Expr(ast.Call(name("id"), [name("self")], [])))


KINDS = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, T) and v is not T and k != "elif_"}


def transform(tree, kind):
    t = KINDS[kind](tree)
    t.top = []

    def go(body, c):
        for s in list(body):
            if isinstance(s, ast.FunctionDef):
                if getattr(s, "cy_kind", None) != "decl" and s.body:
                    t.fn(s, c)
                    go(s.body, c)
            elif isinstance(s, ast.ClassDef):
                go(s.body, s)
                t.cls_body(s)
            elif isinstance(s, (ast.If, ast.Try)):
                go(s.body, c)
                go(s.orelse, c)
    go(tree.body, None)
    tree.body += t.top
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            if not hasattr(ch, "lineno") and hasattr(n, "lineno") and isinstance(ch, (ast.stmt, ast.expr, ast.arg, ast.keyword)):
                ch.lineno, ch.col_offset, ch.end_lineno, ch.end_col_offset = n.lineno, 0, n.lineno, 0
    return tree


def main():
    av = sys.argv[1:]
    kinds = sorted(KINDS)
    if av and av[0] == "-k":
        kinds, av = av[1].split(","), av[2:]
    orig = program.load_module
    bad = 0
    for kind in kinds:
        def load(p, kind=kind):
            tree = orig(p)
            return tree if p.endswith(".pxd") else transform(tree, kind)
        program.load_module = load
        t0 = time.time()
        prog = Program()
        for pid in av:
            chk = importlib.import_module("sa.checks.%s" % pid.lower()).CHECK(prog, "quick")
            try:
                chk.run()
                n = len(chk.findings)
                und = len(chk.lists.get("functions undecided", ())) + len(chk.lists.get("laws undecided", ()))
                print("%-10s %s findings %d undecided %d" % (kind, pid, n, und))
                bad += n
                for i in sorted(chk.findings)[:int(os.environ.get("N", "6"))]:
                    print("     ", chk.findings[i].where, chk.findings[i].msg[:int(os.environ.get("W", "240"))])
            except AnalysisBroken as e:
                bad += 1
                print("%-10s %s BROKEN %s" % (kind, pid, e))
            except Exception as e:
                bad += 1
                import traceback
                traceback.print_exc(limit=-3)
                print("%-10s %s CRASH %r" % (kind, pid, e))
        print("%-10s %.1f s" % (kind, time.time() - t0))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
