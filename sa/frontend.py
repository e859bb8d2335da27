"""Parse the .pyx/.pxd/.py sources of /repo into one uniform tree.

Cython sources are parsed with Cython's own parser (no text matching) and lowered to
Python ``ast`` nodes, keeping line numbers.  Declared C types survive as:

* ``AnnAssign`` with a string annotation for ``cdef`` variables,
* string annotations on arguments,
* ``cy_kind`` (def/cdef/cpdef), ``cy_ret`` (declared return type) and ``cy_exc``
  ('noexcept' / 'except' / None) on FunctionDef nodes.

Nothing is executed; only the parser runs.
"""
import ast
import os

from Cython.Compiler import Errors, Nodes, ExprNodes, Symtab
from Cython.Compiler.Main import Context
from Cython.Compiler.Options import CompilationOptions
from Cython.Compiler.Scanning import FileSourceDescriptor


class FrontendError(Exception):
    pass


def parse_cython(path):
    Errors.init_thread()
    ctx = Context.from_options(CompilationOptions(language_level=3))
    src = FileSourceDescriptor(path, os.path.basename(path))
    scope = Symtab.ModuleScope("m", None, ctx)
    try:
        return ctx.parse(src, scope, path.endswith(".pxd"), "m")
    except Errors.CompileError as e:
        raise FrontendError("cannot parse %s: %s" % (path, e))


BINOP = {
    "+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv,
    "%": ast.Mod, "**": ast.Pow, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor,
    "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult,
}
CMPOP = {
    "<": ast.Lt, ">": ast.Gt, "==": ast.Eq, "!=": ast.NotEq, "<=": ast.LtE, ">=": ast.GtE,
    "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn,
}


def type_str(base, declarator=None):
    t = _base_str(base)
    d = declarator
    suffix = ""
    while d is not None and not isinstance(d, Nodes.CNameDeclaratorNode):
        if isinstance(d, Nodes.CPtrDeclaratorNode):
            suffix += "*"
        elif isinstance(d, Nodes.CArrayDeclaratorNode):
            suffix += "[]"
        elif isinstance(d, Nodes.CFuncDeclaratorNode):
            pass
        d = getattr(d, "base", None)
    return t + suffix


def _base_str(b):
    if b is None:
        return ""
    if isinstance(b, Nodes.MemoryViewSliceTypeNode):
        return _base_str(b.base_type_node) + "[" + ", ".join([":"] * len(b.axes)) + "]"
    if isinstance(b, Nodes.CSimpleBaseTypeNode):
        if b.name is None:
            return "object"
        n = b.name
        if getattr(b, "module_path", None):
            n = ".".join(list(b.module_path) + [n])
        if getattr(b, "longness", 0) > 0 and n == "int":
            n = "long"
        return n
    for attr in ("base_type", "base_type_node"):
        if hasattr(b, attr):
            return _base_str(getattr(b, attr))
    return type(b).__name__


def declarator_name(d):
    while not isinstance(d, Nodes.CNameDeclaratorNode):
        d = d.base
    return d.name


class Lower:
    def __init__(self, path):
        self.path = path

    # -- helpers -------------------------------------------------------
    def at(self, new, old):
        pos = getattr(old, "pos", None)
        line = pos[1] if pos else 1
        col = pos[2] if pos else 0
        new.lineno = new.end_lineno = line
        new.col_offset = new.end_col_offset = col
        return new

    def fail(self, n):
        raise FrontendError("%s: cannot lower %s at line %s" % (self.path, type(n).__name__, n.pos and n.pos[1]))

    def body(self, n):
        out = []
        self.stmts(n, out)
        return out

    def nebody(self, n, ref):
        b = self.body(n) if n is not None else []
        return b or [self.at(ast.Pass(), ref)]

    def stmts(self, n, out):
        if n is None:
            return
        if isinstance(n, Nodes.StatListNode):
            for s in n.stats:
                self.stmts(s, out)
            return
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.fail(n)
        r = m(n)
        if r is None:
            return
        if isinstance(r, list):
            out.extend(r)
        else:
            out.append(r)

    # -- statements ----------------------------------------------------
    def s_ExprStatNode(self, n):
        return self.at(ast.Expr(self.e(n.expr)), n)

    def s_PassStatNode(self, n):
        return self.at(ast.Pass(), n)

    def s_BreakStatNode(self, n):
        return self.at(ast.Break(), n)

    def s_ContinueStatNode(self, n):
        return self.at(ast.Continue(), n)

    def s_GlobalNode(self, n):
        return self.at(ast.Global(list(n.names)), n)

    s_NonlocalNode = s_GlobalNode

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, ExprNodes.ImportNode):
            return self._import(n)
        t = self.e(n.lhs, ast.Store())
        ann = getattr(n.lhs, "annotation", None)
        v = self.e(n.rhs)
        if ann is not None and isinstance(n.rhs, ExprNodes.NoneNode) and getattr(n, "declaration_only", False):
            return None
        return self.at(ast.Assign([t], v), n)

    def _import(self, n):
        mod = n.rhs.module_name.value
        name = n.lhs.name
        full = mod
        r = ast.Import([ast.alias(full, name if name != full else None)])
        return self.at(r, n)

    def s_CascadedAssignmentNode(self, n):
        return self.at(ast.Assign([self.e(x, ast.Store()) for x in n.lhs_list], self.e(n.rhs)), n)

    def s_InPlaceAssignmentNode(self, n):
        return self.at(ast.AugAssign(self.e(n.lhs, ast.Store()), BINOP[n.operator](), self.e(n.rhs)), n)

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        level = n.module.level or 0
        if n.items and n.items[0][0] == "*":
            names = [ast.alias("*")]
        else:
            names = [ast.alias(a, t.name if t.name != a else None) for a, t in n.items]
        if level < 0:
            level = 0
        mod = mod.lstrip(".") if level else mod
        return self.at(ast.ImportFrom(mod, names, level), n)

    def s_FromCImportStatNode(self, n):
        names = [ast.alias(i[1], i[2]) for i in n.imported_names]
        return self.at(ast.ImportFrom(n.module_name, names, n.relative_level or 0), n)

    def s_CImportStatNode(self, n):
        return self.at(ast.Import([ast.alias(n.module_name, n.as_name)]), n)

    def s_CDefExternNode(self, n):
        out = []
        self.stmts(n.body, out)
        return out

    def s_CTypeDefNode(self, n):
        return None

    def s_CStructOrUnionDefNode(self, n):
        return None

    def s_CEnumDefNode(self, n):
        body = []
        for i, it in enumerate(n.items):
            v = self.e(it.value) if it.value is not None else ast.Constant(i)
            body.append(self.at(ast.Assign([self.at(ast.Name(it.name, ast.Store()), it)], self.at(v, it)), it))
        c = ast.ClassDef(n.name or "<enum>", [], [], body or [self.at(ast.Pass(), n)], [])
        c.cy_enum = True
        return self.at(c, n)

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            inner = d
            is_func = False
            while not isinstance(inner, Nodes.CNameDeclaratorNode):
                if isinstance(inner, Nodes.CFuncDeclaratorNode):
                    is_func = True
                    fd = inner
                inner = inner.base
            if is_func:
                f = self._func(n, inner.name, fd.args, None, None, [], None)
                f.cy_kind = "decl"
                f.cy_ret = type_str(n.base_type, d)
                f.cy_exc = self._exc(fd)
                f.cy_nogil = bool(getattr(fd, "nogil", False))
                out.append(f)
                continue
            t = self.at(ast.Name(inner.name, ast.Store()), n)
            v = self.e(inner.default) if inner.default is not None else None
            a = ast.AnnAssign(t, self.at(ast.Constant(type_str(n.base_type, d)), n), v, 1)
            a.cy_vis = n.visibility
            out.append(self.at(a, n))
        return out

    def s_ReturnStatNode(self, n):
        return self.at(ast.Return(self.e(n.value) if n.value is not None else None), n)

    def s_RaiseStatNode(self, n):
        exc = self.e(n.exc_type) if n.exc_type is not None else None
        cause = self.e(n.cause) if getattr(n, "cause", None) is not None else None
        return self.at(ast.Raise(exc, cause), n)

    def s_ReraiseStatNode(self, n):
        return self.at(ast.Raise(None, None), n)

    def s_AssertStatNode(self, n):
        cond = getattr(n, "condition", None)
        if cond is None:
            cond = n.cond
        return self.at(ast.Assert(self.e(cond), None), n)

    def s_DelStatNode(self, n):
        return self.at(ast.Delete([self.e(a, ast.Del()) for a in n.args]), n)

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause is not None else []
        cur = None
        for c in reversed(n.if_clauses):
            cur = self.at(ast.If(self.e(c.condition), self.nebody(c.body, c), orelse), c)
            orelse = [cur]
        return cur

    def s_ForInStatNode(self, n):
        return self.at(ast.For(self.e(n.target, ast.Store()), self.e(n.iterator.sequence), self.nebody(n.body, n),
                               self.body(n.else_clause) if n.else_clause else []), n)

    def s_ForFromStatNode(self, n):
        # for i from a <= i < b
        a = self.e(n.bound1)
        b = self.e(n.bound2)
        if n.relation1 == "<":
            a = self.at(ast.BinOp(a, ast.Add(), self.at(ast.Constant(1), n)), n)
        if n.relation2 == "<=":
            b = self.at(ast.BinOp(b, ast.Add(), self.at(ast.Constant(1), n)), n)
        call = self.at(ast.Call(self.at(ast.Name("range", ast.Load()), n), [a, b], []), n)
        return self.at(ast.For(self.e(n.target, ast.Store()), call, self.nebody(n.body, n),
                               self.body(n.else_clause) if n.else_clause else []), n)

    def s_WhileStatNode(self, n):
        return self.at(ast.While(self.e(n.condition), self.nebody(n.body, n),
                                 self.body(n.else_clause) if n.else_clause else []), n)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            if c.pattern is None:
                typ = None
            elif isinstance(c.pattern, list):
                ps = [self.e(p) for p in c.pattern]
                typ = ps[0] if len(ps) == 1 else self.at(ast.Tuple(ps, ast.Load()), c)
            else:
                typ = self.e(c.pattern)
            name = c.target.name if c.target is not None else None
            hs.append(self.at(ast.ExceptHandler(typ, name, self.nebody(c.body, c)), c))
        return self.at(ast.Try(self.nebody(n.body, n), hs, self.body(n.else_clause) if n.else_clause else [], []), n)

    def s_TryFinallyStatNode(self, n):
        return self.at(ast.Try(self.nebody(n.body, n), [], [], self.nebody(n.finally_clause, n)), n)

    def s_WithStatNode(self, n):
        item = ast.withitem(self.e(n.manager), self.e(n.target, ast.Store()) if n.target is not None else None)
        return self.at(ast.With([item], self.nebody(n.body, n)), n)

    def s_GILStatNode(self, n):
        return self.body(n.body)

    # -- definitions ---------------------------------------------------
    def _exc(self, fd):
        if getattr(fd, "exception_check", None) is False and fd.exception_value is None:
            return "noexcept" if getattr(fd, "has_explicit_exc_clause", False) else None
        if fd.exception_value is not None or fd.exception_check:
            return "except"
        return None

    def _arg(self, a):
        if isinstance(a, Nodes.PyArgDeclNode):
            return self.at(ast.arg(a.name, None), a), None
        name = declarator_name(a.declarator)
        typ = type_str(a.base_type, a.declarator)
        if not name:  # untyped: the name parsed as the type
            name = a.base_type.name
            typ = None
        ann = a.annotation
        if typ in ("object", "", None):
            typ = None
        arg = self.at(ast.arg(name, self.at(ast.Constant(typ), a) if typ else None), a)
        dflt = a.default
        d = None
        if dflt is not None:
            d = self.at(ast.Constant(Ellipsis), a) if dflt is True or not isinstance(dflt, Nodes.Node) else self.e(dflt)
        return arg, d

    def _func(self, n, name, args, star, starstar, decorators, body):
        pos, defaults, kwonly, kwdefaults = [], [], [], []
        nkw = getattr(n, "num_kwonly_args", 0) or 0
        cut = len(args) - nkw
        for i, a in enumerate(args):
            arg, d = self._arg(a)
            if i < cut:
                pos.append(arg)
                if d is not None:
                    defaults.append(d)
            else:
                kwonly.append(arg)
                kwdefaults.append(d)
        va = self.at(ast.arg(star.name, None), star) if star is not None else None
        kw = self.at(ast.arg(starstar.name, None), starstar) if starstar is not None else None
        a = ast.arguments([], pos, va, kwonly, kwdefaults, kw, defaults)
        f = ast.FunctionDef(name, a, self.nebody(body, n) if body is not None else [self.at(ast.Pass(), n)], decorators, None, None)
        f.cy_kind = "def"
        f.cy_ret = None
        f.cy_exc = None
        return self.at(f, n)

    def s_DefNode(self, n):
        decs = [self.e(d.decorator) for d in (n.decorators or [])]
        f = self._func(n, n.name, n.args, n.star_arg, n.starstar_arg, decs, n.body)
        return f

    def s_CFuncDefNode(self, n):
        fd = n.declarator
        while not isinstance(fd, Nodes.CFuncDeclaratorNode):
            fd = fd.base
        name = declarator_name(fd)
        decs = [self.e(d.decorator) for d in (n.decorators or [])] if getattr(n, "decorators", None) else []
        f = self._func(n, name, fd.args, None, None, decs, n.body)
        f.cy_kind = "cpdef" if n.overridable else "cdef"
        f.cy_ret = type_str(n.base_type, n.declarator)
        f.cy_exc = self._exc(fd)
        return f

    def s_PropertyNode(self, n):
        out = []
        for s in self.body(n.body):
            if isinstance(s, ast.FunctionDef):
                kind = {"__get__": "getter", "__set__": "setter", "__del__": "deleter"}[s.name]
                s.name = n.name
                if kind == "getter":
                    s.decorator_list = [self.at(ast.Name("property", ast.Load()), n)]
                else:
                    s.decorator_list = [self.at(ast.Attribute(self.at(ast.Name(n.name, ast.Load()), n), kind, ast.Load()), n)]
                out.append(s)
        return out

    def s_CClassDefNode(self, n):
        bases = []
        if n.bases is not None and getattr(n.bases, "args", None):
            bases = [self.e(b) for b in n.bases.args]
        c = ast.ClassDef(n.class_name, bases, [], self.nebody(n.body, n) if n.body is not None else [self.at(ast.Pass(), n)], [])
        c.cy_cdef = True
        c.cy_fwd = n.body is None
        return self.at(c, n)

    def s_PyClassDefNode(self, n):
        bases = [self.e(b) for b in (n.bases.args if n.bases is not None else [])]
        c = ast.ClassDef(n.name, bases, [], self.nebody(n.body, n), [])
        return self.at(c, n)

    # -- expressions ---------------------------------------------------
    def e(self, n, ctx=None):
        ctx = ctx or ast.Load()
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            if isinstance(n, ExprNodes.BinopNode):
                return self.at(ast.BinOp(self.e(n.operand1), BINOP[n.operator](), self.e(n.operand2)), n)
            self.fail(n)
        r = m(n, ctx)
        return self.at(r, n)

    def x_NameNode(self, n, ctx):
        return ast.Name(str(n.name), ctx)

    def x_AttributeNode(self, n, ctx):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ctx)

    def x_IntNode(self, n, ctx):
        v = n.value
        try:
            return ast.Constant(int(v, 0))
        except ValueError:
            return ast.Constant(int(v))

    def x_FloatNode(self, n, ctx):
        return ast.Constant(float(n.value))

    def x_BoolNode(self, n, ctx):
        return ast.Constant(bool(n.value))

    def x_NoneNode(self, n, ctx):
        return ast.Constant(None)

    def x_NullNode(self, n, ctx):
        return ast.Name("NULL", ctx)

    def x_EllipsisNode(self, n, ctx):
        return ast.Constant(Ellipsis)

    def x_UnicodeNode(self, n, ctx):
        return ast.Constant(str(n.value))

    x_IdentifierStringNode = x_UnicodeNode
    x_StringNode = x_UnicodeNode

    def x_BytesNode(self, n, ctx):
        v = n.value
        return ast.Constant(bytes(v) if not isinstance(v, str) else v.encode())

    def x_CharNode(self, n, ctx):
        return ast.Constant(n.value)

    def x_TupleNode(self, n, ctx):
        return ast.Tuple([self.e(a, ctx) for a in n.args], ctx)

    def x_ListNode(self, n, ctx):
        return ast.List([self.e(a, ctx) for a in n.args], ctx)

    def x_SetNode(self, n, ctx):
        return ast.Set([self.e(a) for a in n.args])

    def x_StarredUnpackingNode(self, n, ctx):
        return ast.Starred(self.e(n.target, ctx), ctx)

    def x_MergedSequenceNode(self, n, ctx):
        el = []
        for a in n.args:
            if isinstance(a, (ExprNodes.TupleNode, ExprNodes.ListNode, ExprNodes.SetNode)):
                el += [self.e(x) for x in a.args]
            else:
                el.append(self.at(ast.Starred(self.e(a), ast.Load()), a))
        return ast.List(el, ctx)

    def x_DictNode(self, n, ctx):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])

    def x_MergedDictNode(self, n, ctx):
        ks, vs = [], []
        for a in n.keyword_args:
            if isinstance(a, ExprNodes.DictNode):
                for i in a.key_value_pairs:
                    ks.append(self.e(i.key))
                    vs.append(self.e(i.value))
            else:
                ks.append(None)
                vs.append(self.e(a))
        return ast.Dict(ks, vs)

    def x_AsTupleNode(self, n, ctx):
        return self.e(n.arg)

    def x_SimpleCallNode(self, n, ctx):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def _posargs(self, n):
        if isinstance(n, ExprNodes.TupleNode):
            return [self.e(a) for a in n.args]
        if isinstance(n, ExprNodes.AsTupleNode):
            return [self.at(ast.Starred(self.e(n.arg), ast.Load()), n)]
        if isinstance(n, ExprNodes.AddNode):
            return self._posargs(n.operand1) + self._posargs(n.operand2)
        if isinstance(n, ExprNodes.MergedSequenceNode):
            out = []
            for a in n.args:
                if isinstance(a, (ExprNodes.TupleNode, ExprNodes.ListNode)):
                    out += [self.e(x) for x in a.args]
                else:
                    out.append(self.at(ast.Starred(self.e(a), ast.Load()), a))
            return out
        return [self.at(ast.Starred(self.e(n), ast.Load()), n)]

    def x_GeneralCallNode(self, n, ctx):
        kws = []
        k = n.keyword_args
        if k is not None:
            parts = k.keyword_args if isinstance(k, ExprNodes.MergedDictNode) else [k]
            for p in parts:
                if isinstance(p, ExprNodes.DictNode):
                    for i in p.key_value_pairs:
                        kws.append(self.at(ast.keyword(str(i.key.value), self.e(i.value)), i))
                else:
                    kws.append(self.at(ast.keyword(None, self.e(p)), p))
        return ast.Call(self.e(n.function), self._posargs(n.positional_args), kws)

    def x_IndexNode(self, n, ctx):
        return ast.Subscript(self.e(n.base), self.e(n.index), ctx)

    def x_SliceNode(self, n, ctx):
        def o(x):
            return None if x is None or isinstance(x, ExprNodes.NoneNode) else self.e(x)
        return ast.Slice(o(n.start), o(n.stop), o(n.step))

    def x_SliceIndexNode(self, n, ctx):
        s = self.at(ast.Slice(self.e(n.start) if n.start is not None else None,
                              self.e(n.stop) if n.stop is not None else None, None), n)
        return ast.Subscript(self.e(n.base), s, ctx)

    def x_PrimaryCmpNode(self, n, ctx):
        ops, comps = [CMPOP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMPOP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, comps)

    def x_BoolBinopNode(self, n, ctx):
        op = ast.And() if n.operator == "and" else ast.Or()
        vals = []
        for o in (n.operand1, n.operand2):
            v = self.e(o)
            if isinstance(v, ast.BoolOp) and type(v.op) is type(op):
                vals += v.values
            else:
                vals.append(v)
        return ast.BoolOp(op, vals)

    def x_NotNode(self, n, ctx):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def x_UnaryMinusNode(self, n, ctx):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def x_UnaryPlusNode(self, n, ctx):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def x_TildeNode(self, n, ctx):
        return ast.UnaryOp(ast.Invert(), self.e(n.operand))

    def x_AmpersandNode(self, n, ctx):
        return ast.Call(self.at(ast.Name("__addr__", ast.Load()), n), [self.e(n.operand)], [])

    def x_TypecastNode(self, n, ctx):
        t = type_str(n.base_type, n.declarator)
        return ast.Call(self.at(ast.Name("__cast__", ast.Load()), n), [self.at(ast.Constant(t), n), self.e(n.operand)], [])

    def x_SizeofTypeNode(self, n, ctx):
        return ast.Call(self.at(ast.Name("sizeof", ast.Load()), n), [self.at(ast.Constant(type_str(n.base_type, n.declarator)), n)], [])

    def x_SizeofVarNode(self, n, ctx):
        return ast.Call(self.at(ast.Name("sizeof", ast.Load()), n), [self.e(n.operand)], [])

    def x_CondExprNode(self, n, ctx):
        t = getattr(n, "test", None) or n.condition
        return ast.IfExp(self.e(t), self.e(n.true_val), self.e(n.false_val))

    def x_JoinedStrNode(self, n, ctx):
        return ast.JoinedStr([self.e(v) for v in n.values])

    def x_FormattedValueNode(self, n, ctx):
        return ast.FormattedValue(self.e(n.value), -1, None)

    def x_YieldExprNode(self, n, ctx):
        return ast.Yield(self.e(n.arg) if n.arg is not None else None)

    def x_AwaitExprNode(self, n, ctx):
        return ast.Await(self.e(n.arg))

    def x_ImportNode(self, n, ctx):
        return ast.Call(self.at(ast.Name("__import__", ast.Load()), n), [self.at(ast.Constant(str(n.module_name.value)), n)], [])

    def x_LambdaNode(self, n, ctx):
        args = [self._arg(a)[0] for a in n.args]
        body = getattr(n, "result_expr", None)
        if body is None:
            body = n.body.value if hasattr(n.body, "value") else n.body
        return ast.Lambda(ast.arguments([], args, None, [], [], None, []), self.e(body))

    def x_ComprehensionNode(self, n, ctx):
        gens = []
        cur = n.loop
        while True:
            if isinstance(cur, Nodes.ForInStatNode):
                gens.append(ast.comprehension(self.e(cur.target, ast.Store()), self.e(cur.iterator.sequence), [], 0))
                cur = cur.body
            elif isinstance(cur, Nodes.StatListNode) and len(cur.stats) == 1:
                cur = cur.stats[0]
            elif isinstance(cur, Nodes.IfStatNode):
                gens[-1].ifs.append(self.e(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            else:
                break
        if isinstance(cur, Nodes.ExprStatNode):
            cur = cur.expr
        if isinstance(cur, ExprNodes.DictComprehensionAppendNode):
            return ast.DictComp(self.e(cur.dict_item.key), self.e(cur.dict_item.value), gens)
        if isinstance(cur, ExprNodes.ComprehensionAppendNode):
            el = self.e(cur.expr)
        elif isinstance(cur, ExprNodes.YieldExprNode):
            el = self.e(cur.arg)
        else:
            self.fail(cur)
        tname = str(getattr(n, "type", ""))
        if "set" in tname:
            return ast.SetComp(el, gens)
        return ast.ListComp(el, gens)

    def x_GeneratorExpressionNode(self, n, ctx):
        loop = getattr(n, "loop", None)
        if loop is None:
            loop = n.def_node.gbody.body if hasattr(n, "def_node") and n.def_node is not None else None
        if loop is None:
            self.fail(n)
        n.loop = loop
        r = self.x_ComprehensionNode(n, ctx)
        return ast.GeneratorExp(r.elt, r.generators)

    def x_InlinedGeneratorExpressionNode(self, n, ctx):
        return self.e(n.gen)

    def x_AnnotationNode(self, n, ctx):
        return ast.Constant(None)


def load_module(path):
    """Return (ast.Module) for a .py/.pyx/.pxd file."""
    if path.endswith(".py"):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        try:
            return ast.parse(src, path)
        except SyntaxError as e:
            raise FrontendError("cannot parse %s: %s" % (path, e))
    tree = parse_cython(path)
    low = Lower(path)
    m = ast.Module(low.body(tree.body), [])
    m.cy_directives = dict(getattr(tree, "directive_comments", {}) or {})
    return m
