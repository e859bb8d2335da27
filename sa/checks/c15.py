"""C15  Errors are never swallowed."""
import ast
import re

from ..report import Check
from ..spec import SpecRunner
from ..program import Func
from ..flow import completes, functions, handler_names, jumps, try_blocks

# types that catch errors of every kind
BROAD = {"Exception", "BaseException", "RuntimeError", "?"}
# methods of containers and strings: a name the program defines as well does not make the call a call of the program
CONTAINER = {"index", "get", "append", "pop", "popitem", "update", "extend", "remove", "values", "items", "keys", "setdefault",
             "add", "insert", "lower", "upper", "format", "split", "close", "strip", "clear", "copy", "count", "sort", "discard",
             "time", "loads", "load", "read", "write", "warn", "warning", "error", "info", "debug", "exception", "critical"}
BUILTIN = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
# keyword arguments that ask a library to ignore errors
IGNORE = {"errors": ("ignore", "coerce"), "ignore_errors": (True,), "on_bad_lines": ("skip", "warn"), "return_exceptions": (True,)}


class C15(Check):
    id = "C15"
    technique = "exception-flow analysis over every handler, clean-up block and native function of the package"
    explanation = ("Every handler of the package is classified: one that can be left without raising may catch only a specific "
                   "exception type, around operations that are not calls into the package (which could raise that type for other "
                   "reasons); no jump leaves a finally block; nothing suppresses errors through context managers, library options or "
                   "a true __exit__ result; clean-up code that runs with an error in flight contains no call into the package that "
                   "could raise and replace it; native functions are not declared noexcept unless they are handed to a C library as "
                   "call-backs, and no module switches exception propagation off.")
    level_note = ("All handlers and clean-up blocks of the package are covered; which calls belong to the package is decided by name, "
                  "so a handler around a call through an unknown value counts as around a call into the package.")
    assumptions = ["third-party libraries raise on errors unless told otherwise by the options listed"]

    def run(self):
        P = self.prog
        self.mods = [m for m in P.modules.values() if m.name.split(".")[0] == "pywr"]
        self.fnames = {f.name for m in self.mods for f in functions(m)} | {c.name for m in self.mods for c in m.classes.values()}
        for m in self.mods:
            self.directive(m)
            for s in m.toplevel:
                for t in try_blocks(s):
                    self.toplevel(t, m)
            for f in functions(m):
                self.count("functions")
                self.func(f, m)
        self.noexcept()
        SpecRunner(self, self.id).run()
        self.floor("functions", 700)
        self.floor("handlers", 25)
        self.floor("native_functions", 100)

    # -- directives ---------------------------------------------------------------------------------
    def directive(self, m):
        if not m.path.endswith((".pyx", ".pxd")):
            return
        head = open(m.path).read()
        if re.search(r"^#\s*cython:.*legacy_implicit_noexcept\s*=\s*True", head, re.M) or \
                re.search(r"legacy_implicit_noexcept\s*\(\s*True", head):
            self.report("noexcept", m.name + ":directive", m.path, "exceptions of native functions are dropped in this module")

    # -- try statements ------------------------------------------------------------------------------
    def toplevel(self, t, m):
        for h in t.handlers:
            self.count("handlers")
            names = handler_names(h)
            if completes(h.body) and any(n in BROAD for n in names):
                self.report("swallowed", "%s:module:%s" % (m.name, "/".join(names)), "%s:%d" % (m.name, h.lineno),
                            "%s catches %s at import time and carries on" % (m.name, "/".join(names)))

    def func(self, f, m):
        local = self.locals_of(f.node)
        self.walk(f.node.body, f, local, False)
        for w in ast.walk(f.node):
            if isinstance(w, (ast.With, ast.AsyncWith)):
                for it in w.items:
                    self.context(it.context_expr, f, w)
            elif isinstance(w, ast.Call):
                for k in w.keywords:
                    if k.arg in IGNORE and isinstance(k.value, ast.Constant) and k.value.value in IGNORE[k.arg] and \
                            not (k.arg == "errors" and self.text_io(w)):
                        self.report("ignored", "%s:%s" % (f.qual, k.arg), self.at(f, w),
                                    "%s asks %s() to ignore errors (%s=%r)" % (f.qual, ast.unparse(w.func), k.arg, k.value.value))
        if f.name == "__exit__":
            for r in ast.walk(f.node):
                if isinstance(r, ast.Return) and r.value is not None and not (
                        isinstance(r.value, ast.Constant) and not r.value.value):
                    self.report("swallowed", f.qual + ":exit", self.at(f, r),
                                "%s returns a true value: the error leaving the with block is dropped" % f.qual)

    def text_io(self, call):
        return ast.unparse(call.func).rsplit(".", 1)[-1] in ("decode", "encode", "open")

    def at(self, f, n):
        return "%s:%d" % (f.where.rsplit(":", 1)[0], n.lineno)

    def locals_of(self, fn):
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out

    def walk(self, stmts, f, local, inflight):
        """inflight: the block runs in a handler that raises again (an error is on its way to the caller)"""
        for s in stmts:
            if isinstance(s, ast.Try):
                self.trystmt(s, f, local, inflight)
                continue
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.walk(s.body, f, local, False)
                continue
            for b in ("body", "orelse"):
                v = getattr(s, b, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    self.walk(v, f, local, inflight)

    def trystmt(self, t, f, local, inflight):
        for h in t.handlers:
            self.count("handlers")
            names = handler_names(h)
            tag = "%s:%s" % (f.qual, "/".join(names))
            c = completes(h.body)
            if c and not inflight:
                if all(n in ("ZeroDivisionError", "OverflowError", "FloatingPointError") for n in names):
                    pass        # arithmetic on the values themselves
                elif any(n in BROAD for n in names):
                    # a bare look-up in a document or table can only fail by a missing key
                    if any(isinstance(x, (ast.Call, ast.BinOp, ast.Attribute, ast.For, ast.With)) for b in t.body for x in ast.walk(b)):
                        self.report("swallowed", tag, self.at(f, h),
                                    "%s catches %s and carries on" % (f.qual, "/".join(names)))
                else:
                    inner = self.package_calls(t.body, f, local)
                    if inner and not self.package_calls(h.body, f, local):
                        self.report("swallowed", "%s:%s" % (tag, inner[0][0]), self.at(f, h),
                                    "%s catches %s around %s() and carries on: an error of that kind raised inside it is taken for "
                                    "the expected one" % (f.qual, "/".join(names), inner[0][0]))
                    if "KeyError" in names and not inner:
                        self.lookups(t, f, tag, h)
            if not c:
                self.cleanup(h.body, f, local, "the handler of %s" % "/".join(names), tag)
            self.walk(h.body, f, local, inflight or not c)
        for j in jumps(t.finalbody):
            self.report("finally-jump", "%s:%s" % (f.qual, type(j).__name__), self.at(f, j),
                        "%s leaves a finally block with %s: an error in flight is dropped" % (f.qual, type(j).__name__.lower()))
        if t.finalbody:
            self.count("clean_up_blocks")
            self.cleanup(t.finalbody, f, local, "its finally block", f.qual + ":finally")
        for b in (t.body, t.orelse, t.finalbody):
            self.walk(b, f, local, inflight)

    REGISTRY = {"nodes", "parameters", "recorders", "scenarios", "tables"}

    def lookups(self, t, f, tag, h):
        """A look-up of a component next to another look-up: the handler cannot tell which of them failed."""
        subs = [n for s in t.body for n in ast.walk(s) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)]
        reg = [n for n in subs if isinstance(n.value, ast.Attribute) and n.value.attr in self.REGISTRY]
        if reg and len({ast.dump(n) for n in subs}) > len({ast.dump(n) for n in reg}):
            self.report("swallowed", tag + ":lookup", self.at(f, h),
                        "%s catches KeyError around %s and another look-up: an unknown name is taken for a missing key"
                        % (f.qual, ast.unparse(reg[0])))

    def cleanup(self, stmts, f, local, what, tag):
        """Calls into the package made while an error is in flight, outside any try of their own."""
        for n, call in self.package_calls(stmts, f, local, protected=True):
            self.report("replaced", "%s:%s" % (tag, n), self.at(f, call),
                        "%s: %s calls %s(), whose error would replace the one on its way to the caller" % (f.qual, what, n))

    def own_helper(self, call, f, depth):
        """A helper of the same class or module that itself neither raises nor calls into the package."""
        fn, g = call.func, None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls is not None:
            g = f.cls.find_method(fn.attr)
            if g is not None and any(fn.attr in c.methods for c in self.prog.subs(f.cls) if c is not f.cls and c.methods.get(fn.attr) is not g):
                g = None
        elif isinstance(fn, ast.Name) and fn.id not in self.locals_of(f.node):
            g = f.module.funcs.get(fn.id)
        if g is None or depth > 2 or any(isinstance(n, (ast.Raise, ast.Yield)) for n in ast.walk(g.node)):
            return False
        return not self.package_calls(g.node.body, g, self.locals_of(g.node), depth=depth + 1)

    def package_calls(self, stmts, f, local, protected=False, depth=0):
        out = []

        def go(n):
            if isinstance(n, ast.Raise):
                return
            if protected and isinstance(n, ast.Try) and any(
                    any(x in ("Exception", "BaseException") for x in handler_names(h)) and completes(h.body) for h in n.handlers):
                for x in n.orelse + n.finalbody + [y for h in n.handlers for y in h.body]:
                    go(x)
                return
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm in self.fnames and nm not in CONTAINER and self.own_helper(n, f, depth):
                    nm = ""
                if nm is None:
                    out.append(("?", n))
                elif isinstance(n.func, ast.Attribute):
                    if nm in self.fnames and nm not in CONTAINER and not self.external(n.func, f):
                        out.append((nm, n))
                    elif nm in ("load", "loads", "update", "write", "read", "close") and self.own_object(n.func.value):
                        out.append((nm, n))
                elif nm in local or nm in self.fnames:
                    if not (isinstance(f.module.names.get(nm), str)):
                        out.append((nm, n))
            for c in ast.iter_child_nodes(n):
                go(c)
        for s in stmts:
            go(s)
        return out

    def own_object(self, e):
        t = ast.unparse(e)
        return bool(re.search(r"\b(parameter|recorder|node|component|model|cls|super\(\))\b", t))

    def external(self, func, f):
        """module.function of a library"""
        root = func.value
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name):
            s = f.module.names.get(root.id)
            return s is not None and not root.id == "self" and str(s).find("pywr") < 0 and not isinstance(s, Func)
        return False

    def context(self, e, f, w):
        t = ast.unparse(e)
        if re.search(r"\bsuppress\(", t) and isinstance(e, ast.Call):
            names = [ast.unparse(a).rsplit(".", 1)[-1] for a in e.args]
            local = self.locals_of(f.node)
            if any(n in BROAD for n in names) or self.package_calls(w.body, f, local):
                self.report("swallowed", f.qual + ":suppress", self.at(f, w), "%s suppresses %s" % (f.qual, "/".join(names)))

    # -- native functions -----------------------------------------------------------------------------
    def noexcept(self):
        for m in self.mods:
            if not m.path.endswith((".pyx", ".pxd")):
                continue
            fs = list(functions(m))
            for f in fs:
                self.count("native_functions")
                if f.node.__dict__.get("cy_exc") != "noexcept":
                    continue
                called, handed = False, False
                for g in fs:
                    funcs = {id(n.func) for n in ast.walk(g.node) if isinstance(n, ast.Call)}
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.Name) and n.id == f.name or isinstance(n, ast.Attribute) and n.attr == f.name:
                            if id(n) in funcs:
                                called = True
                            elif isinstance(n.ctx, ast.Load):
                                handed = True
                if f.cls is not None or called or not handed:
                    if self.can_raise(f):
                        self.report("noexcept", f.qual, f.where,
                                    "%s is declared noexcept: an error raised in it is printed and dropped" % f.qual)

    def can_raise(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Raise, ast.Assert, ast.Call, ast.Subscript, ast.Attribute, ast.For)):
                return True
        return False


CHECK = C15
