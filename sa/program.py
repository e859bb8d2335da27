"""Resolved program model of pywr: modules, imports, classes (pyx+pxd merged), C3 MRO,
methods, properties and declared attribute types.  Built from /repo's current source on
every run; nothing of pywr is imported or executed."""
import ast
import os

from .frontend import load_module, FrontendError
from .norm import normalise

REPO = os.environ.get("PYWR_SA_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot decide (vanished anchor, unparsable source)."""


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.names = {}          # local name -> symbol
        self.stars = []
        self.classes, self.funcs, self.consts = {}, {}, {}
        self.toplevel = []       # executable top-level statements

    def __repr__(self):
        return "<mod %s>" % self.name


class Func:
    def __init__(self, node, module, cls=None, kind="method"):
        self.node, self.module, self.cls, self.kind = node, module, cls, kind
        self.name = node.name

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    @property
    def where(self):
        return "%s:%d" % (os.path.relpath(self.module.path, REPO), self.node.lineno)

    def __repr__(self):
        return "<func %s.%s>" % (self.module.name, self.qual)


class Cls:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.base_exprs = list(node.bases)
        self.bases, self.mro = [], []
        self.methods, self.props, self.attr_ann, self.class_attrs = {}, {}, {}, {}
        self.attr_vis = {}
        self.is_enum = bool(getattr(node, "cy_enum", False))
        self.external_bases = []

    @property
    def qual(self):
        return self.module.name + "." + self.name

    @property
    def where(self):
        return "%s:%d" % (os.path.relpath(self.module.path, REPO), self.node.lineno)

    def __repr__(self):
        return "<cls %s>" % self.qual

    # resolution over the MRO ------------------------------------------------
    def find_method(self, name, after=None):
        seen = after is None
        for c in self.mro:
            if not seen:
                seen = c is after
                continue
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, name, after=None):
        seen = after is None
        for c in self.mro:
            if not seen:
                seen = c is after
                continue
            if name in c.props:
                return c.props[name]
            if name in c.methods or name in c.class_attrs:
                return None
        return None

    def find_attr_ann(self, name):
        for c in self.mro:
            if name in c.attr_ann:
                return c.attr_ann[name], c
        return None, None

    def find_class_attr(self, name):
        for c in self.mro:
            if name in c.class_attrs:
                return c.class_attrs[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def isname(self, *names):
        return any(c.name in names for c in self.mro)


def _decorators(fn):
    out = []
    for d in fn.decorator_list:
        if isinstance(d, ast.Name):
            out.append((d.id, None))
        elif isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name):
            out.append((d.attr, d.value.id))
        elif isinstance(d, ast.Call):
            f = d.func
            out.append((f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "?"), None))
    return out


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.by_name = {}
        self._load()

    # -- loading --------------------------------------------------------------
    def _load(self):
        root = os.path.join(self.repo, "pywr")
        files = []
        for d, dirs, fs in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "notebook"))
            for f in sorted(fs):
                if f.endswith((".py", ".pyx", ".pxd")):
                    files.append(os.path.join(d, f))
        pxds = {}
        self.files = files
        for p in files:
            rel = os.path.relpath(p, self.repo)
            mod = os.path.splitext(rel)[0].replace(os.sep, ".")
            if mod.endswith(".__init__"):
                mod = mod[: -len(".__init__")]
            if p.endswith(".pxd"):
                pxds[mod] = p
                continue
            if p.endswith(".py") and os.path.exists(p[:-3] + ".pyx"):
                continue
            try:
                tree = normalise(load_module(p))
            except FrontendError as e:
                raise AnalysisBroken(str(e))
            m = Module(mod, p)
            m.tree = tree
            m.is_pkg = p.endswith("__init__.py")
            m.is_cy = p.endswith(".pyx")
            self.modules[mod] = m
        for mod, m in self.modules.items():
            self._collect(m, m.tree.body)
        for mod, p in pxds.items():
            try:
                tree = normalise(load_module(p))
            except FrontendError as e:
                raise AnalysisBroken(str(e))
            if mod in self.modules:
                self._merge_pxd(self.modules[mod], tree)
            else:
                m = Module(mod, p)
                m.tree = tree
                m.is_pkg = False
                m.is_cy = True
                self.modules[mod] = m
                self._collect(m, tree.body)
        for m in self.modules.values():
            for c in m.classes.values():
                for e in c.base_exprs:
                    b = self.resolve_expr(m, e)
                    if isinstance(b, Cls):
                        c.bases.append(b)
                    else:
                        c.external_bases.append(ast.unparse(e))
        for m in self.modules.values():
            for c in m.classes.values():
                if not c.mro:
                    self._mro(c)
        self.classes = [c for m in self.modules.values() for c in m.classes.values() if not c.is_enum]
        self.classes.sort(key=lambda c: (c.module.name, c.node.lineno))
        for c in self.classes:
            self.by_name.setdefault(c.name, []).append(c)
        self.subclasses = {}
        for c in self.classes:
            for b in c.mro[1:]:
                self.subclasses.setdefault(b, []).append(c)

    def _mro(self, c):
        for b in c.bases:
            if not b.mro:
                self._mro(b)
        seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisBroken("inconsistent MRO for %s" % c.qual)
            out.append(h)
            for s in seqs:
                if s[0] is h:
                    del s[0]
        c.mro = out

    def _collect(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if getattr(s, "cy_kind", None) == "decl":
                    m.names.setdefault(s.name, ("cdecl", s))
                    continue
                f = Func(s, m, None, "func")
                m.funcs[s.name] = f
                m.names[s.name] = f
            elif isinstance(s, ast.ClassDef):
                if getattr(s, "cy_fwd", False) and s.name in m.classes:
                    continue
                if getattr(s, "cy_enum", False):
                    for a in s.body:
                        if isinstance(a, ast.Assign):
                            m.names.setdefault(a.targets[0].id, ("const", a.value, m))
                c = Cls(s.name, m, s)
                self._collect_class(c, s.body)
                if s.name in m.classes and getattr(m.classes[s.name].node, "cy_fwd", False) is False:
                    pass
                m.classes[s.name] = c
                m.names[s.name] = c
            elif isinstance(s, (ast.Import,)):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("mod", a.name)
                    else:
                        m.names.setdefault(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
                m.toplevel.append(s)
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(m, s.module, s.level)
                for a in s.names:
                    if a.name == "*":
                        m.stars.append(base)
                    else:
                        m.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("const", s.value, m)
                        m.consts[t.id] = s.value
                m.toplevel.append(s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                m.names.setdefault(s.target.id, ("const", s.value, m))
                if s.value is not None:
                    m.consts[s.target.id] = s.value
                m.toplevel.append(s)
            elif isinstance(s, (ast.If, ast.Try)):
                m.toplevel.append(s)
                for blk in ("body", "orelse", "finalbody"):
                    self._collect(m, getattr(s, blk, []))
                for h in getattr(s, "handlers", []):
                    self._collect(m, h.body)
            else:
                m.toplevel.append(s)

    def _abs(self, m, name, level):
        if not level:
            return name
        parts = m.name.split(".")
        if not getattr(m, "is_pkg", False):
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([name] if name else []))

    def _collect_class(self, c, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                if getattr(s, "cy_kind", None) == "decl":
                    continue
                decs = _decorators(s)
                names = [d[0] for d in decs]
                if "property" in names or "cached_property" in names:
                    c.props.setdefault(s.name, {})["get"] = Func(s, c.module, c, "get")
                elif "setter" in names:
                    c.props.setdefault(s.name, {})["set"] = Func(s, c.module, c, "set")
                elif "deleter" in names:
                    c.props.setdefault(s.name, {})["del"] = Func(s, c.module, c, "del")
                elif "classmethod" in names:
                    c.methods[s.name] = Func(s, c.module, c, "class")
                elif "staticmethod" in names:
                    c.methods[s.name] = Func(s, c.module, c, "static")
                else:
                    c.methods[s.name] = Func(s, c.module, c, "method")
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ann = s.annotation
                c.attr_ann[s.target.id] = ann.value if isinstance(ann, ast.Constant) else ast.unparse(ann)
                c.attr_vis[s.target.id] = getattr(s, "cy_vis", None)
                if s.value is not None:
                    c.class_attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if not self._property_call(c, t.id, s.value):
                            c.class_attrs[t.id] = s.value

    def _property_call(self, c, name, e):
        """``name = property(**name())`` with a function returning its local accessors, or ``property(get, set)``."""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "property"):
            return False
        acc = {}
        for k, a in list(zip(("fget", "fset", "fdel"), e.args)) + [(k.arg, k.value) for k in e.keywords]:
            if k is not None:
                f = c.methods.get(a.id) if isinstance(a, ast.Name) else None
                if f is not None:
                    acc[k] = f.node
            elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in c.methods:
                for x in c.methods[a.func.id].node.body:
                    if isinstance(x, ast.FunctionDef):
                        acc[x.name] = x
                if a.func.id == name:
                    del c.methods[name]
        for k, n in acc.items():
            if k in ("fget", "fset", "fdel"):
                c.props.setdefault(name, {})[k[1:]] = Func(n, c.module, c, k[1:])
        return bool(acc)

    def _merge_pxd(self, m, tree):
        for s in tree.body:
            if isinstance(s, ast.ClassDef) and not getattr(s, "cy_enum", False):
                c = m.classes.get(s.name)
                if c is None:
                    if not getattr(s, "cy_fwd", False):
                        self._collect(m, [s])
                    continue
                for a in s.body:
                    if isinstance(a, ast.AnnAssign):
                        c.attr_ann[a.target.id] = a.annotation.value
                        c.attr_vis[a.target.id] = getattr(a, "cy_vis", None)
                        if a.target.id.startswith("__") and not a.target.id.endswith("__"):
                            c.attr_ann["_%s%s" % (c.name.lstrip("_"), a.target.id)] = a.annotation.value
                    elif isinstance(a, ast.FunctionDef):
                        # signature declared in the pxd: keep the exception clause / return type
                        f = c.methods.get(a.name)
                        if f is not None:
                            if f.node.cy_exc is None:
                                f.node.cy_exc = a.cy_exc
                            if not f.node.cy_ret:
                                f.node.cy_ret = a.cy_ret
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(m, s.module, s.level)
                for a in s.names:
                    if a.name == "*":
                        if base not in m.stars:
                            m.stars.append(base)
                    else:
                        m.names.setdefault(a.asname or a.name, ("from", base, a.name))
            elif isinstance(s, ast.ClassDef):
                for a in s.body:
                    if isinstance(a, ast.Assign):
                        m.names.setdefault(a.targets[0].id, ("const", a.value, m))
            elif isinstance(s, ast.FunctionDef):
                m.names.setdefault(s.name, ("cdecl", s))

    # -- name resolution ------------------------------------------------------
    def resolve(self, m, name, seen=None):
        """Resolve a module-level name to Cls / Func / Module / ('const',expr,mod) / None."""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        s = m.names.get(name)
        if s is None:
            sub = self.modules.get(m.name + "." + name)
            if sub is not None and getattr(m, "is_pkg", False):
                return sub
            for st in m.stars:
                sm = self.modules.get(st)
                if sm is not None and not name.startswith("__"):
                    r = self.resolve(sm, name, seen)
                    if r is not None:
                        return r
            return None
        if isinstance(s, (Cls, Func)):
            return s
        if s[0] == "mod":
            return self.modules.get(s[1]) or ("ext", s[1])
        if s[0] == "from":
            sm = self.modules.get(s[1])
            if sm is not None:
                r = self.resolve(sm, s[2], seen)
                if r is not None:
                    return r
                if s[1] + "." + s[2] in self.modules:
                    return self.modules[s[1] + "." + s[2]]
                return None
            if s[1] and s[1] + "." + s[2] in self.modules:
                return self.modules[s[1] + "." + s[2]]
            return ("ext", "%s.%s" % (s[1], s[2]))
        return s

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                r = self.resolve(b, e.attr)
                if r is None:
                    r = self.modules.get(b.name + "." + e.attr)
                return r
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def resolve_type(self, m, ann):
        """A Cls for a declared type name, or None."""
        if not ann:
            return None
        cur = m
        parts = ann.split(".")
        for p in parts[:-1]:
            r = self.resolve(cur, p)
            if not isinstance(r, Module):
                return None
            cur = r
        r = self.resolve(cur, parts[-1])
        return r if isinstance(r, Cls) and not r.is_enum else None

    # -- lookups used by checks ----------------------------------------------
    def cls(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.modules.get("pywr" + ("." + mod if mod else "")) if not mod.startswith("pywr") else self.modules.get(mod)
        if m is None or name not in m.classes:
            raise AnalysisBroken("anchor vanished: class %s" % qual)
        return m.classes[name]

    def func(self, mod, name):
        m = self.modules.get(mod)
        if m is None or name not in m.funcs:
            raise AnalysisBroken("anchor vanished: function %s.%s" % (mod, name))
        return m.funcs[name]

    def subs(self, base, strict=False):
        return ([] if strict else [base]) + self.subclasses.get(base, [])
