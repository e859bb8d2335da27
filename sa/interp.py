"""A small abstract interpreter over the lowered syntax trees.

It walks structured code once per abstract context (joins at branches, bounded iteration at
loops, effects of exceptional exits kept for handlers), resolves callees through the program
model and inlines them, so that a check sees what the code *does* no matter which helper,
local alias or statement order it is written with.  Abstract values carry

* ``t``  possible types (instances of program classes, arrays, ...),
* ``p``  access paths the value is stored at (``self._max_flow_param``, ``arg:ts`` ...),
* ``d``  access paths it was computed from (data provenance),
* ``k``  a known constant (or NOK),
* ``x``  a payload owned by the domain of the running check (units, index spaces, ...).

There is no solver and nothing is executed; every domain is a finite lattice.
"""
import ast

from .program import Cls, Func, Module, Program

NOK = ("<nok>",)
DEAD = ("noreturn",)
E = frozenset()
BOOL = frozenset([("num", "bool")])


class V:
    __slots__ = ("t", "p", "d", "k", "x", "it", "h")

    def __init__(self, t=E, p=E, d=E, k=NOK, x=None, it=None):
        self.t, self.p, self.d, self.k, self.x, self.it = t, p, d, k, x, it
        try:
            self.h = hash((t, p, d, repr(k), x, it))
        except TypeError:
            self.h = hash((t, p, d, repr(k), repr(x)))

    def __eq__(self, o):
        return (self is o) or (isinstance(o, V) and self.h == o.h and self.t == o.t and self.p == o.p and self.d == o.d
                and repr(self.k) == repr(o.k) and self.x == o.x and self.it == o.it)

    def __hash__(self):
        return self.h

    def with_(self, **kw):
        a = dict(t=self.t, p=self.p, d=self.d, k=self.k, x=self.x, it=self.it)
        a.update(kw)
        return V(**a)

    def insts(self):
        return [t[1] for t in self.t if t[0] == "inst"]

    def __repr__(self):
        return "V(t=%s,p=%s,d=%s,k=%s,x=%s)" % (sorted(map(str, self.t)), sorted(self.p), sorted(self.d)[:6],
                                            self.k if self.k is not NOK else "-", self.x)


TOP = V()


def inst(c, path=None, **kw):
    return V(t=frozenset([("inst", c)]), p=frozenset([path]) if path else E,
             d=frozenset([path]) if path else E, **kw)


class State:
    __slots__ = ("env", "heap", "must", "guards")

    def __init__(self, env=None, heap=None, must=E, guards=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.must, self.guards = must, guards

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.must, self.guards)


class Cond:
    """A condition kept under a name."""

    def __init__(self, node):
        self.node = node
        self.text = ast.unparse(node)

    def __repr__(self):
        return "Cond(%s)" % self.text


class Frame:
    def __init__(self, func, selfv, defcls, depth, module):
        self.func, self.selfv, self.defcls, self.depth, self.module = func, selfv, defcls, depth, module
        self.returns = []
        self.loops = []
        self.call = None


SPECIAL_FUNCS = {"super"}


class Interp:
    max_depth = 12

    def __init__(self, prog):
        self.prog = prog
        self.stack = []          # Frames
        self.exc = []            # collectors of states at raise points
        self.raised = []         # (state, node, frame) leaving the entry point
        self.tgt = 0             # >0 while evaluating something only to locate it (no data read)
        self.steps = 0
        self.elem_types = {}     # (class name, attr) -> class of elements
        self.attr_types = {}     # (class name, attr) -> Cls (undeclared python attributes)
        self.arg_types = {}      # argument name -> Cls
        self._setup_types()

    def _setup_types(self):
        P = self.prog

        def g(q):
            m, _, n = q.rpartition(".")
            mod = P.modules.get("pywr." + m)
            return mod.classes.get(n) if mod else None

        ts, si = g("_core.Timestep"), g("_core.ScenarioIndex")
        node, par, rec = g("_core.AbstractNode"), g("parameters._parameters.Parameter"), g("recorders._recorders.Recorder")
        model = g("_model.Model")
        model2 = g("model.MultiModel")
        comp = g("_component.Component")
        sc, scol = g("_core.Scenario"), g("_core.ScenarioCollection")
        for n in ("ts", "timestep"):
            self.arg_types[n] = ts
        for n in ("scenario_index", "si"):
            self.arg_types[n] = si
        self.arg_types["model"] = model
        A, L = self.attr_types, self.elem_types
        for c in ("Component", "AbstractNode", "BaseNode", "ScenarioCollection", "Model"):
            A[(c, "model")] = model
            A[(c, "_model")] = model
        A[("Model", "scenarios")] = scol
        A[("Model", "timestepper")] = g("timestepper.Timestepper")
        A[("Model", "solver")] = g("solvers.Solver")
        A[("Timestepper", "current")] = ts
        A[("Timestepper", "_current")] = ts
        A[("ShadowStorage", "_other_model")] = model
        A[("ShadowNode", "_other_model")] = model
        L[("ScenarioCollection", "combinations")] = si
        L[("ScenarioCollection", "scenarios")] = sc
        L[("ScenarioCollection", "_scenarios")] = sc
        L[("Component", "children")] = comp
        L[("Component", "parents")] = comp
        L[("Model", "parameters")] = par
        L[("Model", "recorders")] = rec
        L[("Model", "components")] = comp
        L[("Model", "nodes")] = node
        L[("Model", "_nodes")] = node
        L[("AggregatedNode", "_nodes")] = g("_core.Node")
        L[("AggregatedNode", "nodes")] = g("_core.Node")
        L[("AggregatedStorage", "_storage_nodes")] = g("_core.AbstractStorage")
        L[("VirtualStorage", "_nodes")] = g("_core.Node")
        L[("AbstractNode", "_recorders")] = rec

    # ---- hooks (overridden by checks) ---------------------------------------
    def x_const(self, k, node):
        return None

    def x_join(self, a, b):
        return a if a == b else None

    def x_bin(self, op, l, r, node, st):
        return None

    def x_un(self, op, v, node, st):
        return v.x

    def x_attr(self, base, attr, res, node, st):
        return res.x

    def x_sub(self, base, idx, res, node, st):
        return res.x

    def x_iter(self, v, node, st):
        return None

    def x_decl(self, cls, attr, res):
        """Payload of a field from its declaration (seed)."""
        return res

    def on_read(self, base, attr, res, node, st):
        pass

    def on_write(self, base, attr, val, node, st, aug):
        pass

    def on_subload(self, base, idx, res, node, st):
        pass

    def on_substore(self, base, idx, val, node, st, aug):
        pass

    def on_call(self, fn, fv, recv, args, kw, node, st):
        """fn: dotted/attribute name; fv: callee value; recv: receiver V or None.
        Return a V to replace the call (no inlining), or None."""
        return None

    def after_call(self, func, recv, args, kw, ret, node, st):
        return ret

    def on_compare(self, l, op, r, node, st):
        pass

    def on_return(self, func, val, node, st):
        pass

    def on_raise(self, node, st):
        pass

    def on_stmt(self, s, st):
        pass

    def on_branch(self, test, v, st):
        pass

    def on_loop(self, s, itv, st):
        pass

    def on_assign(self, name, val, node, st):
        return val

    def inline(self, func, recv, node, st):
        """Whether to inline this resolved callee."""
        if func.kind == "func":
            return func.module.name.startswith("pywr")
        if recv is None:
            return True
        return recv.p == frozenset(["self"])

    def opaque(self, name, recv, args, kw, node, st, func=None):
        d = E
        for a in args:
            d |= a.d
        for a in kw.values():
            d |= a.d
        if recv is not None:
            d |= recv.d
        t = E
        if func is not None:
            t = self.ann_types(func.module, func.node.cy_ret) if getattr(func.node, "cy_ret", None) else E
        return V(t=t, d=d)

    # ---- types ---------------------------------------------------------------
    def ann_types(self, m, ann):
        if not ann:
            return E
        if ann.endswith("]") and "[" in ann:
            base, rest = ann.split("[", 1)
            nd = rest.count(":") or 1
            return frozenset([("arr", nd, base.strip())])
        if ann.endswith("*"):
            return frozenset([("arr", 1, ann[:-1].strip())])
        if ann in ("int", "long", "Py_ssize_t", "size_t", "bint", "unsigned int", "short"):
            return frozenset([("num", "int")])
        if ann in ("double", "float"):
            return frozenset([("num", "double")])
        if ann in ("list", "dict", "tuple", "set"):
            return frozenset([(ann,)])
        if ann in ("str", "basestring", "bytes"):
            return frozenset([("str",)])
        c = self.prog.resolve_type(m, ann)
        if c is not None:
            return frozenset([("inst", c)])
        return E

    def elem_of(self, v):
        """Types of the elements of an iterable value."""
        ts = set()
        for t in v.t:
            if t[0] == "list" and len(t) > 1:
                ts |= t[1]
            elif t[0] == "arr":
                if t[1] > 1:
                    ts.add(("arr", t[1] - 1, t[2]))
                else:
                    ts |= self.ann_types(next(iter(self.prog.modules.values())), t[2])
        return frozenset(ts)

    # ---- joins -----------------------------------------------------------------
    def join_v(self, a, b):
        if a is b or a == b:
            return a
        k = a.k if repr(a.k) == repr(b.k) else NOK
        return V(a.t | b.t, a.p | b.p, a.d | b.d, k, self.x_join(a.x, b.x), a.it if a.it == b.it else None)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        env = dict(a.env)
        for n, v in b.env.items():
            env[n] = self.join_v(env[n], v) if n in env else v
        heap = {}
        for n in set(a.heap) & set(b.heap):
            heap[n] = self.join_v(a.heap[n], b.heap[n])
        gb = set(b.guards)
        return State(env, heap, a.must & b.must, tuple(g for g in a.guards if g in gb))

    def joinall(self, sts):
        r = None
        for s in sts:
            r = self.join(r, s)
        return r

    # ---- entry -------------------------------------------------------------------
    def run(self, func, cls=None, args=None, selfv=None, st=None, xs=None):
        """Interpret func as an entry point on an instance of cls.  Returns (ret V, State or None)."""
        self.stack, self.exc, self.raised = [], [], []
        if selfv is None and cls is not None:
            selfv = V(t=frozenset([("cls" if func.kind == "class" else "inst", cls)]), p=frozenset(["self"]), d=frozenset(["self"]))
        st = st or State()
        argv, kw = [], {}
        fa = func.node.args
        names = [a for a in fa.posonlyargs + fa.args]
        if func.kind in ("method", "get", "set", "class") and names:
            names = names[1:]
        for a in names + fa.kwonlyargs:
            if args and a.arg in args:
                kw[a.arg] = args[a.arg]
            else:
                kw[a.arg] = self.entry_arg(func, a)
        ret, st = self.invoke(func, selfv, argv, kw, None, st, entry=True)
        return ret, st

    def entry_arg(self, func, a):
        t = E
        ann = a.annotation
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            t = self.ann_types(func.module, ann.value)
        elif ann is not None:
            r = self.prog.resolve_expr(func.module, ann)
            if isinstance(r, Cls):
                t = frozenset([("inst", r)])
        if not t and a.arg in self.arg_types and self.arg_types[a.arg] is not None:
            t = frozenset([("inst", self.arg_types[a.arg])])
        p = "arg:" + a.arg
        return V(t=t, p=frozenset([p]), d=frozenset([p]))

    def invoke(self, func, selfv, args, kw, node, st, entry=False):
        """Interpret the body of func with the given arguments; returns (V, State|None)."""
        defcls = func.cls
        fr = Frame(func, selfv, defcls, len(self.stack), func.module)
        fr.call = node
        fa = func.node.args
        env = {}
        names = list(fa.posonlyargs + fa.args)
        rest = list(args)
        if func.kind in ("method", "get", "set", "class", "del") and names:
            env[names[0].arg] = selfv if selfv is not None else TOP
            names = names[1:]
        defaults = fa.defaults
        ndef = len(names) - len(defaults)
        if ndef < 0:
            defaults = defaults[-len(names):] if names else []
            ndef = len(names) - len(defaults)
        outer = st.env
        kw = dict(kw)
        for i, a in enumerate(names):
            if i < len(rest):
                v = rest[i]
            elif a.arg in kw:
                v = kw.pop(a.arg)
            elif i >= ndef:
                v = self.ev_default(defaults[i - ndef], func, st)
            elif "**" in kw:
                v = kw["**"].with_(p=E, k=NOK)
            else:
                v = TOP
            ann = a.annotation
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                t = self.ann_types(func.module, ann.value)
                if t and not v.insts() and v.k is not None:
                    v = self.coerced(v).with_(t=t)
            env[a.arg] = v
        if fa.vararg:
            extra = rest[len(names):]
            d = E
            for e in extra:
                d |= e.d
            env[fa.vararg.arg] = V(t=frozenset([("tuple",)]), d=d | frozenset(["*" + fa.vararg.arg]) if entry else d)
        for a, dv in zip(fa.kwonlyargs, fa.kw_defaults):
            if a.arg in kw:
                env[a.arg] = kw.pop(a.arg)
            else:
                env[a.arg] = self.ev_default(dv, func, st) if dv is not None else TOP
        if fa.kwarg:
            d = E
            for v in kw.values():
                d |= v.d
            env[fa.kwarg.arg] = self.kwargs_value(func, kw, d, entry)
        self.stack.append(fr)
        st.env = env
        end = self.block(func.node.body, st)
        if end is not None:
            self.on_return(func, None, func.node, end)
            fr.returns.append((V(t=frozenset([("none",)]), k=None), end))
        self.stack.pop()
        self.last_returns = fr.returns
        ret, out = None, None
        for v, s in fr.returns:
            ret = v if ret is None else self.join_v(ret, v)
            out = self.join(out, s)
        if out is not None:
            out.env = outer
        return ret if ret is not None else TOP, out

    def coerced(self, v):
        return v

    def kwargs_value(self, func, kw, d, entry):
        p = frozenset(["arg:**"]) if entry else E
        return V(t=frozenset([("dict",)]), d=d | p, p=p)

    def ev_default(self, e, func, st):
        if isinstance(e, ast.Constant):
            return self.const(e.value, e)
        fr = Frame(func, None, func.cls, len(self.stack), func.module)
        self.stack.append(fr)
        save, st.env = st.env, {}
        v = self.ev(e, st)
        st.env = save
        self.stack.pop()
        return v

    @property
    def fr(self):
        return self.stack[-1]

    def loc(self, node):
        import os
        from .program import REPO
        m = self.fr.module if self.stack else None
        return "%s:%s" % (os.path.relpath(m.path, REPO) if m else "?", getattr(node, "lineno", "?"))

    def ctx(self):
        return " > ".join(f.func.qual for f in self.stack)

    # ---- statements ----------------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            self.steps += 1
            for coll in self.exc:
                if coll["depth"] == len(self.stack):
                    coll["snaps"].append(st.copy())
            self.on_stmt(s, st)
            m = getattr(self, "st_" + type(s).__name__, None)
            if m is not None:
                st = m(s, st)
            if st is not None and DEAD in st.must:
                return None     # a callee that never returns normally was called
        return st

    def st_Pass(self, s, st):
        return st

    def st_Expr(self, s, st):
        v = self.ev(s.value, st)
        if self.noreturn(s.value, st):
            return None
        return st

    def noreturn(self, call, st):
        return False

    def st_Assign(self, s, st):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, (ast.Tuple, ast.List)) \
                and len(s.targets[0].elts) == len(s.value.elts):
            vs = [self.ev(e, st) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vs):
                self.assign(t, v, st, s)
            return st
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            n = "\1" + s.targets[0].id
            st.env.pop(n, None)
            if isinstance(s.value, (ast.Compare, ast.BoolOp)) or \
                    isinstance(s.value, ast.UnaryOp) and isinstance(s.value.op, ast.Not):
                # a named condition: testing the name is testing the condition
                st.env[n] = V(k=Cond(self.canon_ast(s.value, st)), p=frozenset(["cond"]))
        return st

    def st_AnnAssign(self, s, st):
        ann = s.annotation
        t = E
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            t = self.ann_types(self.fr.module, ann.value)
        else:
            r = self.prog.resolve_expr(self.fr.module, ann)
            if isinstance(r, Cls):
                t = frozenset([("inst", r)])
        if isinstance(s.target, ast.Name):
            st.env["\0" + s.target.id] = V(t=t)
        if s.value is not None:
            v = self.ev(s.value, st)
            self.assign(s.target, v, st, s)
        return st

    def st_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load()), st)
        elif isinstance(t, ast.Attribute):
            b = self.ev_loc(t.value, st)
            cur = self.getattr(b, t.attr, t, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev_loc(t.value, st)
            i = self.ev_index(t.slice, st)
            cur = self.getitem(b, i, t, st)
        else:
            cur = TOP
        r = self.ev(s.value, st)
        v = self.binop(s.op, cur, r, s, st)
        if isinstance(t, ast.Name):
            self.assign(t, v.with_(p=cur.p if self.is_container(cur) else E), st, s)
        elif isinstance(t, ast.Attribute):
            self.setattr(b, t.attr, v, s, st, aug=(s.op, cur, r))
        elif isinstance(t, ast.Subscript):
            self.setitem(b, i, v, s, st, aug=(s.op, cur, r))
        return st

    def is_container(self, v):
        return any(t[0] in ("arr", "list", "dict", "set") for t in v.t)

    def ev_loc(self, e, st):
        self.tgt += 1
        try:
            return self.ev(e, st)
        finally:
            self.tgt -= 1

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            decl = st.env.get("\0" + t.id)
            if decl is not None and decl.t:
                if not v.insts() or any(x[0] in ("inst", "num", "arr") for x in decl.t):
                    nv = decl.t
                    if v.insts() and decl.insts():
                        # keep the more specific of declared/actual
                        keep = [x for x in v.insts() if any(x.issub(y) for y in decl.insts())]
                        if keep:
                            nv = frozenset(("inst", x) for x in keep)
                    elif ("none",) in v.t and v.k is None:
                        nv = v.t
                    v = v.with_(t=nv)
            r = self.on_assign(t.id, v, node, st)
            st.env[t.id] = v if r is None else r
        elif isinstance(t, ast.Attribute):
            b = self.ev_loc(t.value, st)
            self.setattr(b, t.attr, v, node, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev_loc(t.value, st)
            i = self.ev_index(t.slice, st)
            self.setitem(b, i, v, node, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for n, e in enumerate(t.elts):
                self.assign(e, self.unpack(v, n, len(t.elts), node, st), st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v.with_(p=E), st, node)

    def unpack(self, v, n, total, node, st):
        for t in v.t:
            if t[0] == "tup" and len(t[1]) == total:
                return t[1][n]
        return V(d=v.d, t=self.elem_of(v), p=frozenset(x + "[%d]" % n for x in v.p))

    def st_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev_loc(t.value, st)
                i = self.ev_index(t.slice, st)
                self.on_delete(b, i, s, st)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.on_write(b, t.attr, TOP, s, st, None)
        return st

    def on_delete(self, base, idx, node, st):
        self.on_substore(base, idx, TOP, node, st, None)

    def st_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else V(t=frozenset([("none",)]), k=None)
        if DEAD in st.must:
            return None
        self.on_return(self.fr.func, v, s, st)
        self.fr.returns.append((v, st))
        return None

    def st_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        self.on_raise(s, st)
        self.do_raise(s, st)
        return None

    def do_raise(self, s, st):
        if self.exc:
            self.exc[-1]["raises"].append(st.copy())
        else:
            self.raised.append((st, s))

    def st_Assert(self, s, st):
        self.ev(s.test, st)
        return self.assume(s.test, True, st)

    def st_Global(self, s, st):
        return st

    st_Nonlocal = st_Global
    st_Import = st_Global

    def st_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            m = self.prog.modules.get(a.name if a.asname else n)
            st.env[n] = V(t=frozenset([("mod", m)])) if m else V(t=frozenset([("ext", a.name if a.asname else n)]))
        return st

    def st_ImportFrom(self, s, st):
        base = self.prog._abs(self.fr.module, s.module, s.level)
        m = self.prog.modules.get(base)
        for a in s.names:
            n = a.asname or a.name
            r = None
            if m is not None:
                r = self.prog.resolve(m, a.name)
            v = self.sym(r) if r is not None else V(t=frozenset([("ext", "%s.%s" % (base, a.name))]))
            if isinstance(r, tuple) and r[0] == "const" and not v.p:
                v = v.with_(p=frozenset(["glob:%s.%s" % (r[2].name, a.name)]))
            st.env[n] = v
        return st

    def st_FunctionDef(self, s, st):
        for attr, dv in (("cy_kind", "def"), ("cy_ret", None), ("cy_exc", None)):
            if not hasattr(s, attr):
                setattr(s, attr, dv)
        f = Func(s, self.fr.module, None, "func")
        f.closure = True
        st.env[s.name] = V(t=frozenset([("func", f)]))
        return st

    def st_ClassDef(self, s, st):
        return st

    def st_If(self, s, st):
        v = self.ev(s.test, st)
        self.on_branch(s.test, v, st)
        tv = self.truth(v)
        g0 = st.guards
        a = b = None
        if tv is not False:
            a = st.copy()
            if tv is None:
                self.add_guard(s.test, True, a)
            a = self.assume(s.test, True, a)
        if tv is not True:
            b = st.copy()
            if tv is None:
                self.add_guard(s.test, False, b)
            b = self.assume(s.test, False, b)
        exits = self.exits()
        sides = a is not None and b is not None
        a = self.block(s.body, a) if a is not None else None
        mid = self.exits()
        b = self.block(s.orelse, b) if b is not None else None
        if a is not None and b is not None:
            r = self.join(a, b)
            return r
        r = a if a is not None else b
        if r is not None and sides and not self.keep_raise_guards:
            dead = mid - exits if a is None else self.exits() - mid
            if dead == 0:
                # the other side only raises: what follows is not conditional
                r.guards = tuple(g for g in r.guards if g in set(g0))
        return r

    keep_raise_guards = False

    def exits(self):
        fr = self.fr
        return len(fr.returns) + sum(len(l["break"]) + len(l["continue"]) for l in fr.loops)

    def truth(self, v):
        if v.k is not NOK and (v.k is None or isinstance(v.k, (bool, int, float, str))):
            return bool(v.k)
        return None

    # guards ---------------------------------------------------------------
    def canon(self, e, st):
        """Canonical text of a condition: locals replaced by their access path."""
        try:
            return ast.unparse(self.canon_ast(e, st))
        except Exception:
            return ast.unparse(e)

    def canon_ast(self, e, st):

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                v = st.env.get(n.id)
                if v is not None and len(v.p) == 1:
                    return ast.Name(next(iter(v.p)), ast.Load())
                return n
        import copy
        return R().visit(copy.deepcopy(e))

    def guard_atoms(self, e, pol, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.guard_atoms(e.operand, not pol, st)
        if isinstance(e, ast.Name):
            c = st.env.get("\1" + e.id)
            if c is not None and isinstance(c.k, Cond):
                return self.guard_atoms(c.k.node, pol, State())
        if isinstance(e, ast.BoolOp):
            if (isinstance(e.op, ast.And) and pol) or (isinstance(e.op, ast.Or) and not pol):
                out = []
                for v in e.values:
                    out += self.guard_atoms(v, pol, st)
                return out
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            inv = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}
            if type(op) in inv:
                e2 = ast.Compare(e.left, [inv[type(op)]()], e.comparators)
                return [(self.canon(e2, st), not pol)]
        return [(self.canon(e, st), pol)]

    def add_guard(self, e, pol, st):
        have = set(st.guards)
        for g in self.guard_atoms(e, pol, st):
            if g not in have:
                st.guards = st.guards + (g,)

    def assume(self, e, pol, st):
        """Refine on a condition (None tests, isinstance); returns State or None."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not pol, st)
        if isinstance(e, ast.BoolOp):
            if (isinstance(e.op, ast.And) and pol) or (isinstance(e.op, ast.Or) and not pol):
                for v in e.values:
                    st = self.assume(v, pol, st)
                    if st is None:
                        return None
            return st
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            isnone = isinstance(e.ops[0], ast.Is) == pol
            if isinstance(e.left, ast.Name) and e.left.id in st.env:
                v = st.env[e.left.id]
                if isnone:
                    if v.k is not NOK and v.k is not None:
                        return None
                    st.env[e.left.id] = v.with_(t=frozenset([("none",)]), k=None)
                else:
                    if v.k is None and v.t == frozenset([("none",)]):
                        return None
                    st.env[e.left.id] = v.with_(t=v.t - {("none",)})
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 \
                and isinstance(e.args[0], ast.Name) and pol and e.args[0].id in st.env:
            cs = self.class_arg(e.args[1], st)
            if cs:
                v = st.env[e.args[0].id]
                sub = [c for c in v.insts() if any(c.issub(k) for k in cs)]
                st.env[e.args[0].id] = v.with_(t=frozenset(("inst", c) for c in (sub or cs)))
        return st

    def class_arg(self, e, st):
        es = e.elts if isinstance(e, (ast.Tuple, ast.List)) else [e]
        out = []
        for x in es:
            r = self.prog.resolve_expr(self.fr.module, x)
            if isinstance(r, Cls):
                out.append(r)
        return out

    # loops ---------------------------------------------------------------------
    def st_For(self, s, st):
        itv = self.ev(s.iter, st)
        self.on_loop(s, itv, st)
        el = self.iter_elem(itv, s.iter, st)
        return self.loop(s, st, lambda x: self.assign(s.target, el, x, s))

    def iter_elem(self, v, node, st):
        for t in v.t:
            if t[0] == "enum":
                return V(t=frozenset([("tup", (t[1], t[2]))]), d=t[2].d)
            if t[0] == "zip":
                return V(t=frozenset([("tup", t[1])]))
            if t[0] == "rng":
                return t[1]
            if t[0] == "gen":
                return t[1]
        x = self.x_iter(v, node, st)
        el = v.it if v.it is not None else None
        if el is not None:
            return el if x is None else el.with_(x=x)
        return V(t=self.elem_of(v), p=frozenset(q + "[*]" for q in v.p), d=v.d | frozenset(q + "[*]" for q in v.p), x=x)

    def st_While(self, s, st):
        self.ev(s.test, st)
        self.on_loop(s, None, st)

        def enter(x):
            self.ev(s.test, x)
            self.add_guard(s.test, True, x)
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        return self.loop(s, st, enter, const_true)

    def loop(self, s, st, enter, infinite=False):
        """Loops are taken to run their body (collections iterated are whole collections)."""
        fr = self.fr
        cur = st.copy()
        g0 = st.guards
        breaks = []
        out = None
        for it in range(3):
            lp = {"break": [], "continue": []}
            fr.loops.append(lp)
            body_in = cur.copy()
            enter(body_in)
            end = self.block(s.body, body_in)
            fr.loops.pop()
            ends = ([end] if end is not None else []) + lp["continue"]
            breaks = lp["break"]
            out = self.joinall(ends)
            if out is None:
                break
            nxt = self.join(cur, out)
            nxt.guards = tuple(g for g in nxt.guards if g in set(g0))
            if nxt.env == cur.env and nxt.heap == cur.heap and it > 0:
                break
            if it == 0 and all(cur.env.get(n) == v for n, v in nxt.env.items() if n in cur.env) and \
                    all(cur.heap.get(n) == v for n, v in nxt.heap.items()):
                break
            cur = nxt
        res = out
        if out is not None:
            # locals bound before the loop may keep their value (zero iterations)
            for n, v in st.env.items():
                if n in res.env and not infinite:
                    res.env[n] = self.join_v(res.env[n], v)
        elif not infinite and not breaks:
            res = None if isinstance(s, ast.While) and False else self._loop_skip(s, st)
        if s.orelse:
            res = self.block(s.orelse, res if res is not None else st.copy())
        if infinite:
            res = None
        res = self.join(res, self.joinall(breaks))
        if res is not None:
            gs = set(g0)
            res.guards = tuple(g for g in res.guards if g in gs)
        return res

    def _loop_skip(self, s, st):
        # every pass leaves the function: the loop may also be empty
        return st.copy()

    def st_Break(self, s, st):
        if self.fr.loops:
            self.fr.loops[-1]["break"].append(st)
        return None

    def st_Continue(self, s, st):
        if self.fr.loops:
            self.fr.loops[-1]["continue"].append(st)
        return None

    # try ----------------------------------------------------------------------------
    def st_Try(self, s, st):
        fr = self.fr
        nret = len(fr.returns)
        coll = {"raises": [], "snaps": [], "depth": len(self.stack)}
        env0 = st
        if s.handlers:
            self.exc.append(coll)
        pre = st.copy()
        end = self.block(s.body, st)
        if s.handlers:
            self.exc.remove(coll)
        outs = []
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        if end is not None:
            outs.append(end)
        if s.handlers:
            snaps = coll["snaps"] or [pre]
            base = self.joinall([x.copy() for x in snaps])
            for r in coll["raises"]:
                rr = r.copy()
                rr.env = base.env
                base = self.join(base, rr)
            for h in s.handlers:
                hs = base.copy()
                if h.name:
                    hs.env[h.name] = V(d=frozenset(["exc"]))
                self.on_handler(h, hs, s)
                r = self.block(h.body, hs)
                if r is not None:
                    outs.append(r)
        res = self.joinall(outs)
        if s.finalbody:
            rets = fr.returns[nret:]
            if rets:
                del fr.returns[nret:]
                rs = self.joinall([x for _, x in rets])
                rv = None
                for v, _ in rets:
                    rv = v if rv is None else self.join_v(rv, v)
                rs = self.block(s.finalbody, rs)
                if rs is not None:
                    fr.returns.append((rv, rs))
            if res is None and not rets:
                # body always raises: still walk the cleanup
                self.block(s.finalbody, pre.copy())
            elif res is not None:
                res = self.block(s.finalbody, res)
        return res

    def on_handler(self, h, st, node):
        pass

    def st_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.block(s.body, st)

    # ---- expressions --------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return TOP
        return m(e, st)

    def const(self, k, node):
        if k is None:
            t = ("none",)
        elif isinstance(k, bool):
            t = ("num", "bool")
        elif isinstance(k, int):
            t = ("num", "int")
        elif isinstance(k, float):
            t = ("num", "double")
        elif isinstance(k, str):
            t = ("str",)
        else:
            t = ("other",)
        return V(t=frozenset([t]), k=k, x=self.x_const(k, node))

    def ex_Constant(self, e, st):
        return self.const(e.value, e)

    def sym(self, r):
        if isinstance(r, Cls):
            return V(t=frozenset([("cls", r)]), p=frozenset(["cls:" + r.qual]))
        if isinstance(r, Func):
            return V(t=frozenset([("func", r)]))
        if isinstance(r, Module):
            return V(t=frozenset([("mod", r)]))
        if isinstance(r, tuple):
            if r[0] == "ext":
                return V(t=frozenset([("ext", r[1])]))
            if r[0] == "cdecl":
                return V(t=frozenset([("cdecl", r[1].name)]))
            if r[0] == "const":
                ex, m = r[1], r[2]
                if isinstance(ex, ast.Constant):
                    return self.const(ex.value, ex)
                if isinstance(ex, (ast.Name, ast.Attribute)):
                    rr = self.prog.resolve_expr(m, ex)
                    if rr is not None and rr is not r:
                        return self.sym(rr)
                return self.modconst(ex, m)
        return TOP

    def modconst(self, ex, m):
        return V()

    def ex_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        if "\0" + e.id in st.env:
            return st.env["\0" + e.id]
        r = self.prog.resolve(self.fr.module, e.id)
        if r is not None:
            if isinstance(r, tuple) and r[0] == "const" and e.id in self.mutable_globals(r[2]):
                p = "glob:%s.%s" % (r[2].name, e.id)
                return V(p=frozenset([p]), d=frozenset([p]))
            v = self.sym(r)
            if isinstance(r, tuple) and r[0] == "const" and not v.p:
                p = "glob:%s.%s" % (r[2].name, e.id)
                v = v.with_(p=frozenset([p]))
            return v
        return V(t=frozenset([("builtin", e.id)]))

    _globs = {}

    def mutable_globals(self, m):
        """Module level names some function of the module rebinds."""
        if m not in self._globs:
            out = set()
            fs = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
            for f in fs:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Global):
                        out |= set(n.names)
            self._globs[m] = out
        return self._globs[m]

    LOC_ATTRS = ("shape", "size", "ndim", "dtype")
    LOC_CALLS = ("append", "extend", "add", "insert", "update", "fill", "clear", "remove", "pop", "popleft", "appendleft")

    def ex_Attribute(self, e, st):
        b = self.ev_loc(e.value, st) if e.attr in self.LOC_ATTRS else self.ev(e.value, st)
        return self.getattr(b, e.attr, e, st)

    def field_value(self, c, attr, path):
        """Value of a stored field of class c from declarations."""
        t = E
        it = None
        ann, dc = c.find_attr_ann(attr)
        if ann is not None:
            t = self.ann_types(dc.module, ann)
        if not t or t <= frozenset([("list",), ("dict",), ("set",)]):
            for k in c.mro:
                if (k.name, attr) in self.elem_types and self.elem_types[(k.name, attr)] is not None:
                    t = frozenset([("list", frozenset([("inst", self.elem_types[(k.name, attr)])]))])
                    break
                if (k.name, attr) in self.attr_types and self.attr_types[(k.name, attr)] is not None:
                    t = frozenset([("inst", self.attr_types[(k.name, attr)])])
                    break
        return V(t=t, p=frozenset([path]) if path else E, d=frozenset([path]) if path else E, it=it,
                 x=self.x_decl(c, attr, None))

    def getattr(self, b, attr, node, st):
        outs = []
        for t in b.t:
            if t[0] == "inst":
                outs.append(self.inst_attr(t[1], b, attr, node, st))
            elif t[0] == "super":
                f = t[1].find_method(attr, after=t[2])
                if f is not None:
                    outs.append(V(t=frozenset([("bound", f, b.it)])))
                else:
                    pr = t[1].find_prop(attr, after=t[2])
                    if pr and "get" in pr:
                        r, o = self.call_func(pr["get"], b.it, [], {}, node, st)
                        outs.append(r)
                    else:
                        outs.append(V(t=frozenset([("ext", "super." + attr)])))
            elif t[0] == "cls":
                f = t[1].find_method(attr)
                if f is not None:
                    if f.kind == "class":
                        outs.append(V(t=frozenset([("bound", f, b)])))
                    else:
                        outs.append(V(t=frozenset([("func", f)])))
                else:
                    ca, cc = t[1].find_class_attr(attr)
                    if ca is not None:
                        outs.append(self.const(ca.value, ca) if isinstance(ca, ast.Constant)
                                    else V(p=frozenset(["cls:%s.%s" % (cc.qual, attr)])))
                    elif t[1].is_enum:
                        outs.append(V(t=frozenset([("enum_member", t[1].name, attr)])))
            elif t[0] == "mod":
                r = self.prog.resolve(t[1], attr)
                if r is None:
                    r = self.prog.modules.get(t[1].name + "." + attr)
                if r is not None:
                    outs.append(self.sym(r))
            elif t[0] == "ext":
                outs.append(V(t=frozenset([("ext", t[1] + "." + attr)])))
        if not outs:
            ps = frozenset(q + "." + attr for q in b.p)
            h = [st.heap[q] for q in ps if q in st.heap]
            if len(ps) == 1 and h:
                res = h[0]
            else:
                res = V(p=ps, d=b.d | ps)
        else:
            res = outs[0]
            for o in outs[1:]:
                res = self.join_v(res, o)
        res = res.with_(x=self.x_attr(b, attr, res, node, st))
        self.on_read(b, attr, res, node, st)
        return res

    def inst_attr(self, c, b, attr, node, st):
        paths = frozenset(q + "." + attr for q in b.p)
        pr = c.find_prop(attr)
        if pr is not None:
            if "get" in pr and self.inline_prop(pr["get"], b, node, st) and self.can_call(pr["get"]):
                r, o = self.call_func(pr["get"], b, [], {}, node, st)
                return r
            v = self.field_value(c, attr, None)
            return v.with_(p=paths, d=b.d | paths)
        f = c.find_method(attr)
        if f is not None:
            return V(t=frozenset([("bound", f, b.with_(t=frozenset([("inst", c)])))]), p=paths, d=b.d)
        if len(paths) == 1:
            q = next(iter(paths))
            if q in st.heap:
                return st.heap[q]
        v = self.field_value(c, attr, None)
        ca, cc = c.find_class_attr(attr)
        if ca is not None and isinstance(ca, ast.Call) and not v.t:
            v = self.class_attr_value(c, cc, attr, ca, v)
        elif ca is not None and isinstance(ca, ast.Constant) and not v.t:
            # class attribute default; instances may override it
            v = v.with_(t=self.const(ca.value, ca).t)
        return v.with_(p=paths, d=paths if paths else b.d)

    def class_attr_value(self, c, cc, attr, call, v):
        # parameter_property("_x"): a Parameter stored elsewhere
        fn = self.prog.resolve_expr(cc.module, call.func)
        if isinstance(fn, Cls) or (isinstance(call.func, ast.Name) and "property" in call.func.id):
            par = self.prog.modules["pywr.parameters._parameters"].classes.get("Parameter")
            if par is not None:
                return v.with_(t=frozenset([("inst", par)]))
        return v

    def inline_prop(self, func, b, node, st):
        return b.p == frozenset(["self"])

    def setattr(self, b, attr, v, node, st, aug=None):
        done = False
        for c in b.insts():
            pr = c.find_prop(attr)
            if pr is not None:
                if "set" in pr and self.inline_setter(pr["set"], b, node, st) and self.can_call(pr["set"]):
                    self.call_func(pr["set"], b, [v], {}, node, st)
                    done = True
        self.on_write(b, attr, v, node, st, aug)
        if done:
            return
        if len(b.p) == 1:
            q = next(iter(b.p)) + "." + attr
            for k in list(st.heap):
                if k.startswith(q + ".") or k.startswith(q + "["):
                    del st.heap[k]
            cur = v.with_(p=v.p | frozenset([q]) if self.keeps_alias(v) else frozenset([q]))
            for c in b.insts():
                decl = self.field_value(c, attr, None)
                if decl.t and not (v.k is None and v.t == frozenset([("none",)])) and not v.insts():
                    cur = cur.with_(t=decl.t)
                xd = self.x_decl(c, attr, None)
                if xd is not None and cur.x is None:
                    cur = cur.with_(x=xd)
            st.heap[q] = cur

    def keeps_alias(self, v):
        return bool(v.insts()) or any(t[0] in ("arr", "list", "dict", "set") for t in v.t)

    def inline_setter(self, func, b, node, st):
        return b.p == frozenset(["self"])

    def ev_index(self, e, st):
        save, self.tgt = self.tgt, 0
        try:
            return self.ev_index0(e, st)
        finally:
            self.tgt = save

    def ev_index0(self, e, st):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index1(x, st) for x in e.elts)
        return (self.ev_index1(e, st),)

    def ev_index1(self, e, st):
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, st)
            full = e.upper is None and e.step is None and \
                (e.lower is None or (isinstance(e.lower, ast.Constant) and e.lower.value == 0))
            return V(t=frozenset([("slice", full)]))
        if isinstance(e, ast.Constant) and e.value is Ellipsis:
            return V(t=frozenset([("slice", True)]))
        return self.ev(e, st)

    def ex_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.ev_index(e.slice, st)
        return self.getitem(b, i, e, st)

    def getitem(self, b, idx, node, st):
        t = set()
        nix = sum(1 for v in idx if not any(x[0] == "slice" for x in v.t))
        for x in b.t:
            if x[0] == "arr":
                nd = x[1] - nix
                if nd > 0:
                    t.add(("arr", nd, x[2]))
                else:
                    t |= self.ann_types(self.fr.module, x[2])
            elif x[0] == "list" and len(x) > 1:
                t |= x[1]
            elif x[0] == "inst":
                f = x[1].find_method("__getitem__")
                if f is not None:
                    pass
            elif x[0] == "tup":
                k = idx[0].k
                if isinstance(k, int) and -len(x[1]) <= k < len(x[1]):
                    return x[1][k]
        d = b.d
        for v in idx:
            d |= v.d
        k = idx[0].k if len(idx) == 1 else NOK
        suffix = "[%r]" % (k,) if isinstance(k, (str, int)) and not isinstance(k, bool) and k is not NOK else "[*]"
        ps = frozenset(q + suffix for q in b.p)
        if nix == 0 and ps:
            ps = b.p
        if b.it is not None and not t:
            res = b.it
            res = res.with_(d=res.d | d)
        else:
            res = V(t=frozenset(t), p=ps, d=d | ps)
            if len(ps) == 1 and next(iter(ps)) in st.heap:
                res = st.heap[next(iter(ps))]
        res = res.with_(x=self.x_sub(b, idx, res, node, st))
        self.on_subload(b, idx, res, node, st)
        return res

    def setitem(self, b, idx, v, node, st, aug=None):
        self.on_substore(b, idx, v, node, st, aug)
        k = idx[0].k if len(idx) == 1 else NOK
        if len(b.p) == 1 and isinstance(k, str):
            st.heap[next(iter(b.p)) + "[%r]" % k] = v

    def ex_BinOp(self, e, st):
        l = self.ev(e.left, st)
        r = self.ev(e.right, st)
        return self.binop(e.op, l, r, e, st)

    def binop(self, op, l, r, node, st):
        t = E
        if ("num", "double") in l.t or ("num", "double") in r.t:
            t = frozenset([("num", "double")])
        elif ("num", "int") in l.t and ("num", "int") in r.t:
            t = frozenset([("num", "double" if isinstance(op, ast.Div) else "int")])
        for v in (l, r):
            for x in v.t:
                if x[0] == "arr":
                    t = frozenset([x])
        if ("str",) in l.t:
            t = frozenset([("str",)])
        k = NOK
        if l.k is not NOK and r.k is not NOK and isinstance(l.k, (int, float)) and isinstance(r.k, (int, float)):
            try:
                k = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
                     ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b,
                     ast.Mod: lambda a, b: a % b}[type(op)](l.k, r.k)
            except Exception:
                k = NOK
        return V(t=t, d=l.d | r.d, k=k, x=self.x_bin(op, l, r, node, st))

    def ex_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            tv = self.truth(v)
            return V(t=frozenset([("num", "bool")]), d=v.d, k=(not tv) if tv is not None else NOK)
        k = NOK
        if isinstance(e.op, ast.USub) and isinstance(v.k, (int, float)) and not isinstance(v.k, bool):
            k = -v.k
        return V(t=v.t, d=v.d, k=k, x=self.x_un(e.op, v, e, st))

    def ex_BoolOp(self, e, st):
        vs = []
        s = st
        cur = st.copy()
        for i, x in enumerate(e.values):
            vs.append(self.ev(x, cur))
            self.add_guard(x, isinstance(e.op, ast.And), cur)
            r = self.assume(x, isinstance(e.op, ast.And), cur)
            if r is None:
                break
            cur = r
        st.heap = {k: v for k, v in cur.heap.items() if k in st.heap and st.heap[k] == v}
        res = vs[0]
        for v in vs[1:]:
            res = self.join_v(res, v)
        ks = [self.truth(v) for v in vs]
        k = NOK
        if isinstance(e.op, ast.And):
            if False in ks:
                k = False
            elif len(vs) == len(e.values) and all(x is True for x in ks):
                k = vs[-1].k
        else:
            if any(v.k is True for v in vs) and all(isinstance(v.k, bool) or v.t == BOOL for v in vs):
                k = True
            elif ks and ks[0] is True and isinstance(vs[0].k, bool):
                k = True
            elif len(vs) == len(e.values) and all(x is False for x in ks):
                k = vs[-1].k
        return res.with_(k=k)

    def ex_Compare(self, e, st):
        l = self.ev(e.left, st)
        d = l.d
        k = NOK
        for op, c in zip(e.ops, e.comparators):
            r = self.ev(c, st)
            d |= r.d
            self.on_compare(l, op, r, e, st)
            if len(e.ops) == 1:
                k = self.cmp_const(op, l, r)
            l = r
        return V(t=frozenset([("num", "bool")]), d=d, k=k)

    def cmp_const(self, op, l, r):
        if l.k is not NOK and r.k is not NOK:
            try:
                if isinstance(op, ast.Eq):
                    return l.k == r.k
                if isinstance(op, ast.NotEq):
                    return l.k != r.k
                if isinstance(op, ast.Is) and (r.k is None or isinstance(r.k, bool)):
                    return l.k is r.k
                if isinstance(op, ast.IsNot) and (r.k is None or isinstance(r.k, bool)):
                    return l.k is not r.k
            except Exception:
                return NOK
        if isinstance(op, (ast.Is, ast.IsNot)) and r.k is None and r.t == frozenset([("none",)]):
            if l.t and all(t[0] in ("num", "str") for t in l.t) and l.k is not NOK:
                return isinstance(op, ast.IsNot)
            if l.t == frozenset([("none",)]) and l.k is None:
                return isinstance(op, ast.Is)
        return NOK

    def ex_IfExp(self, e, st):
        t = self.ev(e.test, st)
        self.on_branch(e.test, t, st)
        tv = self.truth(t)
        a = b = None
        if tv is not False:
            s = st.copy()
            self.add_guard(e.test, True, s)
            s2 = self.assume(e.test, True, s)
            a = self.ev(e.body, s2) if s2 is not None else None
        if tv is not True:
            s = st.copy()
            self.add_guard(e.test, False, s)
            s2 = self.assume(e.test, False, s)
            b = self.ev(e.orelse, s2) if s2 is not None else None
        if a is None:
            return b or TOP
        if b is None:
            return a
        return self.join_v(a, b)

    def ex_Tuple(self, e, st):
        vs = tuple(self.ev(x, st) for x in e.elts)
        d = E
        for v in vs:
            d |= v.d
        return V(t=frozenset([("tup", vs)]), d=d)

    def ex_List(self, e, st):
        vs = [self.ev(x, st) for x in e.elts]
        return self.seq(vs)

    ex_Set = ex_List

    def seq(self, vs):
        d, it = E, None
        for v in vs:
            d |= v.d
            it = v if it is None else self.join_v(it, v)
        return V(t=frozenset([("list", it.t if it is not None else E)]), d=d, it=it)

    def ex_Dict(self, e, st):
        d = E
        it = None
        for k, v in zip(e.keys, e.values):
            if k is not None:
                self.ev(k, st)
            vv = self.ev(v, st)
            d |= vv.d
            it = vv if it is None else self.join_v(it, vv)
        return V(t=frozenset([("dict",)]), d=d, it=it)

    def ex_JoinedStr(self, e, st):
        d = E
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                d |= self.ev(v.value, st).d
        return V(t=frozenset([("str",)]), d=d)

    def ex_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ex_Starred(self, e, st):
        return self.ev(e.value, st)

    def ex_Lambda(self, e, st):
        f = ast.FunctionDef("<lambda>", e.args, [ast.Return(e.body, lineno=e.lineno, col_offset=0)], [], None, None)
        f.lineno = e.lineno
        f.col_offset = 0
        f.cy_kind, f.cy_ret, f.cy_exc = "def", None, None
        fn = Func(f, self.fr.module, None, "func")
        fn.closure = True
        return V(t=frozenset([("func", fn)]))

    def ex_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else TOP
        self.fr.returns.append((V(t=frozenset([("gen", v)]), d=v.d), st.copy()))
        return TOP

    def ex_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.fr.returns.append((v, st.copy()))
        return TOP

    def ex_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def comp(self, e, elt, st):
        save = dict(st.env)
        g0 = st.guards
        for g in e.generators:
            itv = self.ev(g.iter, st)
            self.on_loop(g, itv, st)
            self.assign(g.target, self.iter_elem(itv, g.iter, st), st, e)
            for c in g.ifs:
                self.ev(c, st)
                self.add_guard(c, True, st)
                self.assume(c, True, st)
        v = self.ev(elt, st)
        if isinstance(e, ast.DictComp):
            self.ev(e.key, st)
        for n in list(st.env):
            if n not in save:
                del st.env[n]
        st.env.update(save)
        st.guards = g0
        return v

    def ex_ListComp(self, e, st):
        v = self.comp(e, e.elt, st)
        return V(t=frozenset([("list", v.t)]), d=v.d, it=v)

    ex_SetComp = ex_ListComp
    ex_GeneratorExp = ex_ListComp

    def ex_DictComp(self, e, st):
        v = self.comp(e, e.value, st)
        return V(t=frozenset([("dict",)]), d=v.d, it=v)

    # calls ---------------------------------------------------------------------
    def ex_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in st.env:
            return self.mk_super(e, st)
        if isinstance(f, ast.Name) and f.id == "__cast__":
            v = self.ev(e.args[1], st)
            t = self.ann_types(self.fr.module, e.args[0].value)
            if t and any(x[0] in ("inst", "num") for x in t):
                v = v.with_(t=t)
            return v
        if isinstance(f, ast.Name) and f.id == "__addr__":
            return self.ev(e.args[0], st)
        recv = None
        if isinstance(f, ast.Attribute):
            recv = self.ev_loc(f.value, st) if f.attr in self.LOC_CALLS else self.ev(f.value, st)
            fv = self.getattr(recv, f.attr, f, st)
            name = f.attr
        else:
            fv = self.ev(f, st)
            name = f.id if isinstance(f, ast.Name) else "?"
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                tup = [t for t in v.t if t[0] == "tup"]
                if tup:
                    args += list(tup[0][1])
                else:
                    kw["*"] = v
            else:
                args.append(self.ev_loc(a, st) if name == "len" else self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(name, fv, recv, args, kw, e, st)

    def mk_super(self, e, st):
        fr = self.fr
        if len(e.args) == 2:
            c = self.prog.resolve_expr(fr.module, e.args[0])
            sv = self.ev(e.args[1], st)
        else:
            c = fr.defcls
            sv = fr.selfv
        if not isinstance(c, Cls) or sv is None:
            return TOP
        out = set()
        for t in sv.t:
            if t[0] in ("inst", "cls"):
                out.add(("super", t[1], c))
        return V(t=frozenset(out), it=sv, d=sv.d)

    def can_call(self, func):
        if len(self.stack) >= self.max_depth:
            return False
        return sum(1 for f in self.stack if f.func.node is func.node) < 1

    def call_func(self, func, selfv, args, kw, node, st):
        """Inline a call, updating st in place.  Returns (value, state or None)."""
        if not self.can_call(func):
            return self.opaque(func.name, selfv, args, kw, node, st, func), st
        s2 = st.copy()
        if getattr(func, "closure", False):
            pass
        ret, out = self.invoke(func, selfv, args, kw, node, s2)
        if out is None:
            # callee never returns normally
            st.must = st.must | frozenset([DEAD])
            return ret, None
        env = st.env
        st.heap, st.must, st.guards = out.heap, out.must, st.guards
        st.env = env
        return ret, st

    def call(self, name, fv, recv, args, kw, node, st):
        r = self.on_call(name, fv, recv, args, kw, node, st)
        if r is not None:
            return r
        outs = []
        for t in sorted(fv.t, key=str):
            if t[0] == "bound":
                func, sv = t[1], t[2]
                rv = sv
                if self.can_call(func) and self.inline(func, rv, node, st):
                    ret, _ = self.call_func(func, sv, args, kw, node, st)
                else:
                    ret = self.opaque(name, rv, args, kw, node, st, func)
                outs.append(self.after_call(func, rv, args, kw, ret, node, st) or ret)
            elif t[0] == "func":
                func = t[1]
                if func.cls is not None and func.kind == "method":
                    sv, rest = (args[0], args[1:]) if args else (TOP, [])
                    if self.can_call(func) and self.inline(func, sv, node, st):
                        ret, _ = self.call_func(func, sv, rest, kw, node, st)
                    else:
                        ret = self.opaque(name, sv, rest, kw, node, st, func)
                    outs.append(self.after_call(func, sv, rest, kw, ret, node, st) or ret)
                else:
                    if self.can_call(func) and self.inline(func, None, node, st):
                        if getattr(func, "closure", False):
                            ret = self.call_closure(func, args, kw, node, st)
                        else:
                            ret, _ = self.call_func(func, None, args, kw, node, st)
                    else:
                        ret = self.opaque(name, None, args, kw, node, st, func)
                    outs.append(self.after_call(func, None, args, kw, ret, node, st) or ret)
            elif t[0] == "cls":
                outs.append(self.construct(t[1], args, kw, node, st))
            elif t[0] in ("builtin", "ext", "cdecl"):
                nm = t[1]
                b = self.builtin(nm, recv, args, kw, node, st)
                outs.append(b)
        if not outs:
            return self.opaque(name, recv, args, kw, node, st)
        res = outs[0]
        for o in outs[1:]:
            res = self.join_v(res, o)
        return res

    def call_closure(self, func, args, kw, node, st):
        # nested function: sees the enclosing locals
        env = st.env
        s2 = st.copy()
        fr = Frame(func, self.fr.selfv, self.fr.defcls, len(self.stack), func.module)
        e2 = dict(env)
        names = [a.arg for a in func.node.args.args]
        for n, v in zip(names, args):
            e2[n] = v
        for k, v in kw.items():
            e2[k] = v
        s2.env = e2
        self.stack.append(fr)
        end = self.block(func.node.body, s2)
        if end is not None:
            fr.returns.append((V(t=frozenset([("none",)]), k=None), end))
        self.stack.pop()
        ret, out = None, None
        for v, s in fr.returns:
            ret = v if ret is None else self.join_v(ret, v)
            out = self.join(out, s)
        if out is not None:
            st.heap, st.must = out.heap, out.must
        st.env = env
        return ret or TOP

    def construct(self, c, args, kw, node, st):
        d = E
        for a in list(args) + list(kw.values()):
            d |= a.d
        return V(t=frozenset([("inst", c)]), p=frozenset(["new:%s@%s" % (c.name, getattr(node, "lineno", 0))]), d=d)

    def builtin(self, name, recv, args, kw, node, st):
        d = E
        for a in list(args) + list(kw.values()):
            d |= a.d
        if recv is not None and name.startswith("super."):
            d |= E
        if name == "enumerate" and args:
            return V(t=frozenset([("enum", self.enum_index(args[0], node, st), self.iter_elem(args[0], node, st))]), d=d)
        if name == "zip" and args:
            return V(t=frozenset([("zip", tuple(self.iter_elem(a, node, st) for a in args))]), d=d)
        if name == "range":
            return V(t=frozenset([("rng", self.range_index(args, node, st))]), d=d)
        if name in ("list", "tuple", "sorted", "set", "reversed", "iter") and args:
            v = args[0]
            return V(t=frozenset([("list", self.iter_elem(v, node, st).t)]), d=d, it=self.iter_elem(v, node, st), x=v.x)
        if name in ("float", "abs", "int", "round") and args:
            return V(t=frozenset([("num", "int" if name == "int" else "double")]), d=d, x=self.x_builtin(name, args, kw, node, st))
        if name == "len":
            return V(t=frozenset([("num", "int")]), d=d, x=self.x_builtin(name, args, kw, node, st))
        if name == "isinstance":
            return V(t=frozenset([("num", "bool")]), d=d)
        return V(d=d, t=self.builtin_type(name, args), x=self.x_builtin(name, args, kw, node, st))

    def builtin_type(self, name, args):
        last = name.rsplit(".", 1)[-1]
        if last in ("zeros", "ones", "empty", "array", "asarray", "full", "zeros_like", "ones_like"):
            nd = 1
            if args and last in ("zeros", "ones", "empty", "full"):
                for t in args[0].t:
                    if t[0] == "tup":
                        nd = len(t[1])
            return frozenset([("arr", nd, "double")])
        return E

    def x_builtin(self, name, args, kw, node, st):
        return None

    def enum_index(self, v, node, st):
        return V(t=frozenset([("num", "int")]))

    def range_index(self, args, node, st):
        d = E
        for a in args:
            d |= a.d
        return V(t=frozenset([("num", "int")]), d=d)
