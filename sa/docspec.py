"""What each document type accepts: keys, how the references in them are resolved, registered names."""
import ast
import re

from .doctrace import DocTrace
from .families import component_classes
from .interp import V
from .program import Cls

DOCV = V(p=frozenset(["doc"]), d=frozenset(["doc"]))


def norm(q):
    """doc['a'][*]['b'] -> a/b"""
    return "/".join(re.findall(r"\['([^']*)'\]", q))


def trace_load(prog, c):
    f = c.find_method("load")
    if f is None:
        return None, None
    t = DocTrace(prog)
    args = {}
    for a in f.node.args.args:
        if a.arg in ("cls", "self"):
            continue
        if a.arg == "model":
            args["model"] = V(t=frozenset([("inst", prog.cls("_model.Model"))]), p=frozenset(["arg:model"]))
        else:
            args[a.arg] = DOCV
    t.run(f, c, args=args)
    return t, f


def ctor_names(prog, c):
    """(keyword names the constructors accept, required ones, open-ended) following **kwargs up the hierarchy."""
    acc, req, first = set(), set(), True
    for k in c.mro:
        f = k.methods.get("__init__") or k.methods.get("__cinit__")
        if f is None:
            continue
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:]
        acc |= set(names) | {x.arg for x in a.kwonlyargs}
        if first and f.name == "__init__":
            req |= set(names[:len(names) - len(a.defaults)] if a.defaults else names)
        first = False
        if a.kwarg is not None:
            acc |= popped(prog, f, a.kwarg.arg)
        elif f.name == "__init__":
            return acc, req, False
    return acc, req, True


def popped(prog, f, kw):
    """Constant keys taken out of the keyword dictionary, also by functions it is handed to."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "get") and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == kw and n.args and isinstance(n.args[0], ast.Constant):
                out.add(n.args[0].value)
            elif any(isinstance(a, ast.Name) and a.id == kw for a in n.args):
                out |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == kw and isinstance(n.slice, ast.Constant):
            out.add(n.slice.value)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                isinstance(n.left, ast.Constant) and isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == kw:
            out.add(n.left.value)
    return out


def registered(prog):
    """Classes named in a module-level X.register() (or a loop of it)."""
    out = set()
    for m in prog.modules.values():
        for s in m.toplevel:
            loops = {}
            for n in ast.walk(s):
                if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)):
                    loops[n.target.id] = n.iter.elts
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register":
                    v = n.func.value
                    for e in loops.get(v.id, [v]) if isinstance(v, ast.Name) else [v]:
                        r = prog.resolve_expr(m, e)
                        if isinstance(r, Cls):
                            out.add(r)
        for c in m.classes.values():
            for d in getattr(c.node, "decorator_list", ()):
                if "register" in ast.unparse(d):
                    out.add(c)
    return out


def tuples(c):
    """The attribute lists that steer the loading of a node."""
    out = {}
    for n in ("__parameter_attributes__", "__node_attributes__", "__parameter_value_attributes__"):
        v = c.find_class_attr(n)
        out[n] = literal(c, v)
    return out


def literal(c, v, depth=0):
    if v is None:
        return set()
    e = v[0] if isinstance(v, tuple) else v
    if isinstance(e, Cls):
        e = v[1]
    try:
        return set(ast.literal_eval(e))
    except Exception:
        pass
    out = set()
    if isinstance(e, ast.BinOp):
        return literal(c, e.left, depth) | literal(c, e.right, depth)
    if isinstance(e, (ast.Tuple, ast.List)):
        for x in e.elts:
            if isinstance(x, ast.Constant):
                out.add(x.value)
            elif isinstance(x, ast.Starred):
                out |= literal(c, x.value, depth)
        return out
    if isinstance(e, ast.Attribute) and depth < 5:
        for k in c.mro[1:]:
            if isinstance(e.value, ast.Name) and k.name == e.value.id or not isinstance(e.value, ast.Name):
                w = k.find_class_attr(e.attr)
                if w is not None:
                    return literal(k, w, depth + 1)
    return out


def describe(prog):
    """{family: {class: {...}}} of everything a document can contain."""
    out = {"parameter": {}, "recorder": {}, "node": {}}
    reg = registered(prog)
    meta = prog.cls("nodes.NodeMeta") if "NodeMeta" in prog.modules["pywr.nodes"].classes else None
    for fam, c in component_classes(prog):
        acc, req, op = ctor_names(prog, c)
        if fam == "node":
            if not any(k.name == "Loadable" for k in c.mro):
                continue
            d = {"accepts": acc}
            d.update(tuples(c))
            out[fam][c] = d
            continue
        if c not in reg:
            continue
        t, f = trace_load(prog, c)
        if t is None:
            continue
        bound, left = set(), False
        for k, b, l, w, g in t.built:
            if c in k.mro or k in c.mro:
                bound |= set(b)
                left = left or "doc" in l
        keys = {norm(q) for q, *_ in t.reads} - {""}
        legal = {k for k in keys if "/" not in k}
        if left:
            legal |= {n for n in acc if n not in bound} - {"model"}
        res = {}
        for r, q in t.resolved:
            if norm(q):
                res.setdefault(norm(q), set()).add(r)
        for r, q, *_ in t.whole:
            if q == "doc" and r in ("load_parameter_values", "load_dataframe", "load_parameter", "load_recorder"):
                res.setdefault("*", set()).add(r)
        out[fam][c] = {"trace": t, "load": f, "keys": legal, "resolved": res, "accepts": acc, "required": req, "bound": bound, "left": left}
    return out
