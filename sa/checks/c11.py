"""C11  Every key of a model document is honoured or rejected."""
import ast

from ..report import Check
from ..spec import SpecRunner
from ..docspec import describe, registered, norm, ctor_names, DOCV
from ..doctrace import DocTrace
from ..families import component_classes
from ..interp import V, NOK, E
from ..refs import documents as TABLE
from ..flow import functions

ABSTRACT = {"Parameter", "IndexParameter", "Recorder", "BaseControlCurveParameter", "FunctionParameter"}


class C11(Check):
    id = "C11"
    technique = "dataflow of document keys through every loader and constructor, against a table of document types; gated value numbering of constructors"
    explanation = ("Every loader is interpreted with a symbolic document: each key it takes out must flow into the component it builds or "
                   "into a look-up, a key named like an argument of the constructor must reach that argument, the rest of the document "
                   "must be handed to a constructor, and a default used for a missing key must be the constructor's own default. "
                   "Constructors may not drop what they are given: each named argument and each key taken out of the keyword "
                   "dictionary is used, and a keyword dictionary is handed on or checked to be empty. Every type, key and kind of "
                   "reference of the document table is still accepted, registered under a unique name and resolved by the same "
                   "look-up. For nodes the attributes to be loaded later can be set, and the constructor does not combine them with "
                   "others while they are not loaded yet. The sections of a model document are each read and handed on. "
                   "Every constructor is compared with its reference equations: the contents it leaves in each field, for every argument.")
    level_note = ("All registered parameter and recorder types, all node types, their constructors, and the model document itself are "
                  "covered; the attributes that compound nodes make out of lists of sub-nodes are partly undecided.")
    assumptions = ["document keys are constants in the loaders (computed keys are not followed)"]

    def run(self):
        self.desc = describe(self.prog)
        self.table()
        for fam in ("parameter", "recorder"):
            for c, x in self.desc[fam].items():
                self.count("loaders")
                self.loader(fam, c, x)
        self.names()
        for fam, c in component_classes(self.prog):
            self.ctor(c)
        self.nodes()
        self.model_document()
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 60)
        self.floor("loaders", 90)
        self.floor("document_types", 100)
        self.floor("constructors", 120)

    def at(self, f):
        return "%s:%d" % (f.module.name, f.node.lineno)

    # the table ------------------------------------------------------------------------------------------
    def table(self):
        for fam, tab in (("parameter", TABLE.PARAMETER), ("recorder", TABLE.RECORDER)):
            have = {c.name: (c, x) for c, x in self.desc[fam].items()}
            known = {c.name for f, c in component_classes(self.prog) if f == fam}
            for name, (keys, res) in tab.items():
                self.count("document_types")
                if name not in have:
                    self.report("type", name, fam, "the documented %s type %s cannot be named in a document any more%s" %
                                (fam, name, "" if name not in known else ": it is not registered"))
                    continue
                c, x = have[name]
                for k in keys.split():
                    self.count("document_keys")
                    if k not in x["keys"] and not self.open_ended(c, x):
                        self.report("key", "%s.%s" % (name, k), self.at(x["load"]), "key '%s' of type %s is not accepted any more" % (k, name))
                for k, rs in res.items():
                    for r in rs:
                        self.count("references")
                        if r not in x["resolved"].get(k, ()):
                            self.report("reference", "%s.%s" % (name, k), self.at(x["load"]),
                                        "%s of type %s is not resolved with %s any more" %
                                        ("key '%s'" % k if k != "*" else "the values", name, r))
        have = {}
        for c, x in self.desc["node"].items():
            have.setdefault(c.name, (c, x))
        for name, (keys, par, nod, val) in TABLE.NODE.items():
            self.count("document_types")
            if name not in have:
                self.report("type", name, "node", "the node type %s cannot be loaded from a document any more" % name)
                continue
            c, x = have[name]
            every = x["accepts"] | x["__parameter_attributes__"] | x["__node_attributes__"] | x["__parameter_value_attributes__"]
            for k in keys.split():
                self.count("document_keys")
                if k not in every:
                    self.report("key", "%s.%s" % (name, k), c.where, "key '%s' of node type %s is not accepted any more" % (k, name))
            for what, ks in (("__parameter_attributes__", par), ("__node_attributes__", nod), ("__parameter_value_attributes__", val)):
                for k in ks.split():
                    self.count("references")
                    if k not in x[what]:
                        self.report("reference", "%s.%s" % (name, k), c.where, "key '%s' of node type %s is not resolved any more (%s)" %
                                    (k, name, what))

    def open_ended(self, c, x):
        return x["left"] and ctor_names(self.prog, c)[2]

    # loaders --------------------------------------------------------------------------------------------
    def loader(self, fam, c, x):
        t, f = x["trace"], x["load"]
        used = set(t.used)
        for k, b, l, w, g in t.built:
            for v in b.values():
                used |= t.keys(v)
        for attr, b, v, w, g in t.stores:
            used |= t.keys(v)
        for q, how, w, g, fn in t.reads:
            self.count("keys_taken")
            if how in ("pop", "del") and q not in used and q not in t.tests and not any(u.startswith(q) for u in used) \
                    and not norm(q).endswith("comment"):
                self.report("dropped", "%s.%s" % (c.name, norm(q)), w, "the loader of %s takes key '%s' out of the document and drops it" %
                            (c.name, norm(q)))
        if c.name in ABSTRACT:
            return
        acc, req, op = x["accepts"], x["required"], ctor_names(self.prog, c)[2]
        mine = [z for z in t.built if z[0] is c]
        keys = {norm(q) for q, *_ in t.reads}
        for k, b, left, w, g in mine:
            for n, v in sorted(b.items()):
                if n.startswith("*"):
                    continue
                ks = {norm(q).split("/")[0] for q in t.keys(v)}
                if n not in acc and not op and not g:
                    self.report("argument", "%s.%s" % (c.name, n), w, "the loader of %s passes '%s', which its constructor does not accept" %
                                (c.name, n))
                if n in keys and ks and n not in ks:
                    self.report("meaning", "%s.%s" % (c.name, n), w, "key '%s' of %s does not reach the argument of that name; %s does" %
                                (n, c.name, "/".join(sorted(ks))))
                elif len(ks) == 1 and n not in ks and min(ks) in acc and min(ks) not in b and n != "model":
                    self.report("meaning", "%s.%s" % (c.name, n), w, "key '%s' of %s is passed as '%s'" % (min(ks), c.name, n))
            if "doc" not in left:
                self.report("leftover", c.name, w, "the loader of %s neither passes on nor rejects the keys it does not know" % c.name)
        self.defaults(c, t, mine)

    def defaults(self, c, t, mine):
        """A default for a missing key equals the default of the argument it is passed as."""
        f = c.find_method("__init__")
        if f is None:
            return
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k, b, l, w, g in mine:
            for n, v in b.items():
                if n not in dfl:
                    continue
                try:
                    want = ast.literal_eval(dfl[n])
                except Exception:
                    continue
                for q in t.docs(v):
                    for got, w2 in t.defaults.get(q, ()):
                        self.count("defaults")
                        if got == "?" or isinstance(got, (list, tuple, dict)):
                            continue
                        if type(got) in (int, float, bool, str, type(None)) and got != want:
                            self.report("default", "%s.%s" % (c.name, n), w2, "%s loaded without '%s' gets %r, constructed without it %r" %
                                        (c.name, norm(q), got, want))

    # names ----------------------------------------------------------------------------------------------
    def names(self):
        seen = {}
        for fam in ("parameter", "recorder"):
            for c in self.desc[fam]:
                k = (fam, c.name.lower())
                if k in seen and seen[k] is not c:
                    self.report("name", "%s" % c.name, c.where, "%s and %s are registered under the same name" % (seen[k].qual, c.qual))
                seen[k] = c
        for c in self.desc["node"]:
            k = ("node", c.name.lower())
            if k in seen and seen[k] is not c:
                self.report("name", "%s" % c.name, c.where, "%s and %s are registered under the same name" % (seen[k].qual, c.qual))
            seen[k] = c

    # constructors ---------------------------------------------------------------------------------------
    def ctor(self, c):
        f = c.methods.get("__init__")
        if f is None:
            return
        self.count("constructors")
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
        loads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for n in names:
            if n not in loads and n not in ("model", "comment") and not n.startswith("_"):
                self.report("unused", "%s.%s" % (c.name, n), self.at(f), "the constructor of %s ignores its argument '%s'" % (c.name, n))
        kw = a.kwarg.arg if a.kwarg is not None else None
        if kw is None:
            return
        for s in ast.walk(f.node):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr == "pop" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == kw and \
                    s.value.args and isinstance(s.value.args[0], ast.Constant):
                k = s.value.args[0].value
                if not self.otherwise_read(f, kw, k, s):
                    self.report("unused", "%s.%s" % (c.name, k), self.at(f), "the constructor of %s drops the key '%s'" % (c.name, k))
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(getattr(s, "value", None), ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "pop" and \
                    isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == kw:
                for tg in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(tg, ast.Name) and tg.id not in loads:
                        self.report("unused", "%s.%s" % (c.name, tg.id), self.at(f), "the constructor of %s drops a key it takes (%s)" %
                                    (c.name, ast.unparse(s.value)))
        if not self.handed_on(f, kw):
            self.report("swallowed", c.name, self.at(f), "the constructor of %s accepts any keyword and ignores it" % c.name)

    def otherwise_read(self, f, kw, k, s):
        """kwargs[k] is read elsewhere, or a value for it is put back."""
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == kw and \
                    isinstance(n.slice, ast.Constant) and n.slice.value == k:
                return True
            if isinstance(n, ast.Call) and n is not s.value and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id == kw and n.args and isinstance(n.args[0], ast.Constant) and \
                    n.args[0].value == k:
                return True
            if isinstance(n, ast.Call) and any(y.arg == k for y in n.keywords):
                return True
        return False

    def handed_on(self, f, kw):
        tests = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if any(y.arg is None and isinstance(y.value, ast.Name) and y.value.id == kw for y in n.keywords):
                    return True
                if any(isinstance(y, ast.Name) and y.id == kw for y in n.args):
                    return True
            if isinstance(n, (ast.If, ast.While)):
                inner = [m for b in n.body + n.orelse for m in ast.walk(b)]
                if any(isinstance(m, ast.Raise) for m in inner) or \
                        any(isinstance(m, ast.Return) for m in inner) and any(isinstance(m, ast.Raise) for m in ast.walk(f.node)):
                    tests |= {m.id for m in ast.walk(n.test) if isinstance(m, ast.Name)}
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and kw in {m.id for m in ast.walk(n.iter) if isinstance(m, ast.Name)}:
                return True
        return kw in tests

    # nodes ----------------------------------------------------------------------------------------------
    def nodes(self):
        par = self.prog.cls("parameters._parameters.Parameter")
        const = self.prog.cls("parameters._parameters.ConstantParameter")
        for c, x in self.desc["node"].items():
            for k in sorted(x["__parameter_attributes__"]):
                self.count("attributes_set_later")
                if not self.settable(c, k):
                    self.report("settable", "%s.%s" % (c.name, k), c.where, "'%s' is loaded for %s but cannot be set" % (k, c.name))
            f = c.methods.get("__init__")
            if f is None:
                continue
            hook = c.find_method("_pre_load_parameter")
            now = set() if hook is None else {n.value for n in ast.walk(hook.node) if isinstance(n, ast.Constant)}
            t = NodeCtor(self.prog, c)
            a = f.node.args
            args = {y.arg: V(p=frozenset(["doc['%s']" % y.arg]), d=frozenset(["doc['%s']" % y.arg]))
                    for y in (a.posonlyargs + a.args)[1:] + a.kwonlyargs if y.arg != "model"}
            if a.kwarg is not None:
                t.kw = a.kwarg.arg
            t.run(f, c, args=args)
            for k, b, left, w, g in t.built:
                if k is c or par not in k.mro or k.name == "FunctionParameter":
                    continue        # (a function parameter only comes from a Python callable)
                for n, v in b.items():
                    for q in sorted({norm(q).split("/")[0] for q in t.keys(v)}):
                        if q in x["__parameter_attributes__"] and q not in now:
                            self.report("early", "%s.%s" % (c.name, q), w,
                                        "the constructor of %s puts '%s' into a %s, but in a document that attribute is loaded and set "
                                        "afterwards, replacing it" % (c.name, q, k.name))
                        elif k is const and self.by_path(t, v, q) and q not in x["__parameter_value_attributes__"]:
                            self.report("unresolved", "%s.%s" % (c.name, q), w,
                                        "'%s' of %s may be a parameter, but a reference to one in a document is not resolved" % (q, c.name))

    def by_path(self, t, v, q):
        return any(norm(z) == q for z in t.docs(v))

    def settable(self, c, k):
        p = c.find_prop(k)
        if p is not None and "set" in p:
            return True
        for m in c.mro:
            for f in m.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == k and \
                            isinstance(n.value, ast.Name) and n.value.id == "self" and p is None:
                        return True
                    if f.name == "__setattr__" and isinstance(n, ast.Constant) and n.value == k:
                        return True
        return False

    # the model document ---------------------------------------------------------------------------------
    def model_document(self):
        for q, want in TABLE.MODEL.items():
            cls = self.prog.cls(q)
            f = cls.find_method("load_from_dict")
            t = DocTrace(self.prog)
            args = {"data": DOCV, "model": V(t=frozenset([("none",)]), k=None)}
            t.run(f, cls, args=args)
            read = {norm(z) for z, *_ in t.reads} | {norm(z) for z in t.tests}
            used = {norm(z) for z in t.used}
            for k, b, l, w, g in t.built:
                for v in b.values():
                    used |= {norm(z) for z in t.keys(v)}
            for attr, b, v, w, g in t.stores:
                used |= {norm(z) for z in t.keys(v)}
            for z in t.whole:
                used.add(norm(z[1]))
            # a value taken out of a nested document and used
            for k in want.split():
                self.count("document_keys")
                if k not in read:
                    self.report("section", "%s:%s" % (cls.name, k), self.at(f), "'%s' of a %s document is not read any more" % (k, cls.name))
                elif k not in used and not any(u.startswith(k + "/") for u in used | read):
                    self.report("section", "%s:%s" % (cls.name, k), self.at(f), "'%s' of a %s document is read and dropped" % (k, cls.name))


class NodeCtor(DocTrace):
    """The constructor of a node with symbolic keywords."""
    kw = None

    def __init__(self, prog, c):
        super().__init__(prog)
        self.c = c

    def opaque(self, name, recv, args, kw, node, st, func=None):
        if recv is not None and recv.p == frozenset(["arg:**"]) and name in ("pop", "get") and args and isinstance(args[0].k, str):
            p = frozenset(["doc['%s']" % args[0].k])
            return V(p=p, d=p)
        return super().opaque(name, recv, args, kw, node, st, func)


CHECK = C11
