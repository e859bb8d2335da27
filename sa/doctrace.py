"""What a loader does with the keys of its document: which it reads, where their values go."""
import ast
import re

from .interp import V, E, NOK
from .program import Cls
from .trace import CallTrace

DOC = re.compile(r"^doc(\['[^']*'\]|\[\*\]|\[\?\])*")
KEEP = {"load_parameter", "load_recorder", "load_parameter_values", "load_dataframe", "check_hash", "pre_load_node", "finalise_node"}


def sub(q, k):
    return "%s['%s']" % (q, k)


class DocTrace(CallTrace):
    """``doc['k']`` is the value of key k of the document; nested documents nest."""
    keep = KEEP

    def __init__(self, prog):
        super().__init__(prog)
        self.reads = []         # (path, how, where)
        self.built = []         # (class, {param: V}, leftover paths, where, guards)
        self.defaults = {}
        self.whole = []         # (callee, doc paths, where)
        self.tests = set()
        self.stores = []        # (attr, value, where)
        self.resolved = set()   # (resolver, document path)
        self.used = set()       # document paths whose value is handed to something

    def docs(self, v):
        return [q for q in v.p if q.startswith("doc") and DOC.match(q) and DOC.match(q).end() == len(q)]

    def key(self, v):
        return v.k if isinstance(v.k, str) else None

    def take(self, recv, k, how, node, st):
        ps = frozenset(sub(q, k) for q in self.docs(recv))
        for q in ps:
            self.reads.append((q, how, self.loc(node), st.guards, self.fr.func))
        return V(p=ps, d=ps)

    def builtin(self, name, recv, args, kw, node, st):
        last = name.rsplit(".", 1)[-1]
        if last == "dict" and kw:
            # (a keyword dictionary put together by hand)
            r = super().builtin(name, recv, args, kw, node, st) or V(t=frozenset([("dict",)]))
            d = r.d
            for k, v in kw.items():
                d |= v.d | v.p
                if k != "**":
                    self.used |= self.keys(v)
            for a in args:
                d |= a.d | a.p
            return V(t=r.t, d=d, it=r.it)
        if args and last in ("dict", "list", "copy", "deepcopy", "tuple", "array", "asarray", "str", "int", "float", "bool") and self.docs(args[0]):
            r = super().builtin(name, recv, args, kw, node, st)
            return r.with_(p=args[0].p if last in ("dict", "copy", "deepcopy") else r.p, d=r.d | args[0].p)
        return super().builtin(name, recv, args, kw, node, st)

    def opaque(self, name, recv, args, kw, node, st, func=None):
        if recv is not None and self.docs(recv):
            if name in ("pop", "get", "setdefault") and args and self.key(args[0]) is not None:
                r = self.take(recv, self.key(args[0]), name, node, st)
                if len(args) > 1:
                    r = r.with_(d=r.d | args[1].d)
                    for q in r.p:
                        self.defaults.setdefault(q, []).append((args[1].k if args[1].k is not NOK else "?", self.loc(node)))
                return r
            if name == "copy":
                return V(p=recv.p, d=recv.d)
            if name == "update":
                for v in list(args) + list(kw.values()):
                    self.used |= self.keys(v)
            if name in ("values", "keys"):
                return V(d=recv.p, it=V(p=frozenset(q + "[*]" for q in self.docs(recv)), d=recv.p))
            if name == "items":
                el = V(p=frozenset(q + "[*]" for q in self.docs(recv)), d=recv.p)
                tup = V(t=frozenset([("tup", (V(d=recv.p), el))]), d=recv.p)
                return V(d=recv.p, it=tup)
        elif name in ("append", "extend", "insert", "add", "update", "setdefault") and isinstance(node, ast.Call) and isinstance(node.func.value, ast.Name):
            # a local collection carries what is put into it
            v = st.env.get(node.func.value.id)
            if v is not None:
                d = E
                for a in list(args) + list(kw.values()):
                    d |= a.d | a.p
                    self.used |= self.keys(a)
                st.env[node.func.value.id] = v.with_(d=v.d | d)
                return super().opaque(name, recv, args, kw, node, st, func)
        d = E
        for a in list(args) + list(kw.values()):
            d |= a.d | a.p
        r = super().opaque(name, recv, args, kw, node, st, func)
        for a in list(args) + list(kw.values()):
            for q in self.docs(a):
                self.whole.append((name, q, self.loc(node), st.guards))
                if q == "doc" and name in KEEP:
                    d |= {"doc['values']", "doc['url']", "doc['table']"}
            if name in KEEP:
                for q in self.keys(a):
                    self.resolved.add((name, q))
            if not (recv is not None and self.docs(recv)):
                self.used |= self.keys(a)
        return r.with_(d=r.d | d)

    def getitem(self, b, idx, node, st):
        r = super().getitem(b, idx, node, st)
        ds = self.docs(b)
        if ds:
            if len(idx) == 1 and self.key(idx[0]) is not None:
                return self.take(b, self.key(idx[0]), "[]", node, st)
            n = "[%d]" % idx[0].k if len(idx) == 1 and isinstance(idx[0].k, int) else "[?]"
            return V(p=frozenset(q + "[?]" for q in ds), d=b.d | frozenset(ds))
        d = E
        for i in idx:
            d |= i.d | i.p
            for q in self.keys(i):
                self.used.add(q)
                for b_ in b.p:
                    if b_.rsplit(".", 1)[-1] in ("nodes", "scenarios", "tables", "parameters", "recorders"):
                        self.resolved.add((b_.rsplit(".", 1)[-1], q))
        return r.with_(d=r.d | d)

    def on_substore(self, b, idx, v, node, st, aug=None):
        self.used |= self.keys(v)
        t = node if isinstance(node, ast.Subscript) else next((x for x in getattr(node, "targets", ()) if isinstance(x, ast.Subscript)), None)
        if t is not None and isinstance(t.value, ast.Name) and t.value.id in st.env:
            w = st.env[t.value.id]
            st.env[t.value.id] = w.with_(d=w.d | v.d | v.p)
        return super().on_substore(b, idx, v, node, st, aug)

    def ex_Dict(self, e, st):
        d, it = E, None
        for k, v in zip(e.keys, e.values):
            if k is not None:
                self.ev(k, st)
            vv = self.ev(v, st)
            d |= vv.d | vv.p
            if k is not None:
                self.used |= self.keys(vv)
            it = vv if it is None else self.join_v(it, vv)
        return V(t=frozenset([("dict",)]), d=d, it=it)

    def on_delete(self, base, idx, node, st):
        if base is not None and self.docs(base) and idx and self.key(idx[0]) is not None:
            for q in self.docs(base):
                self.reads.append((sub(q, self.key(idx[0])), "del", self.loc(node), st.guards, self.fr.func))

    def on_write(self, b, attr, val, node, st, aug):
        self.stores.append((attr, b, val, self.loc(node), st.guards))
        return super().on_write(b, attr, val, node, st, aug)

    def on_compare(self, l, op, r, node, st):
        if isinstance(op, (ast.In, ast.NotIn)) and self.key(l) is not None:
            for q in self.docs(r):
                self.tests.add(sub(q, self.key(l)))
        return super().on_compare(l, op, r, node, st)

    def construct(self, c, args, kw, node, st):
        r = super().construct(c, args, kw, node, st)
        names, star = self.params(c)
        bound, left = {}, E
        for i, a in enumerate(args):
            bound[names[i] if i < len(names) else "*%d" % i] = a
        for k, v in kw.items():
            if k in ("*", "**"):
                left = left | frozenset(self.docs(v)) | (v.d & {"doc"})
            else:
                bound[k] = v
        self.built.append((c, bound, left, self.loc(node), st.guards))
        d = r.d
        for a in list(args) + list(kw.values()):
            d |= a.p | a.d
        return r.with_(d=d)

    def params(self, c):
        f = c.find_method("__init__")
        if f is None:
            f = c.find_method("__cinit__")
        if f is None:
            return [], True
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args][1:], a.kwarg is not None

    @staticmethod
    def keys(v, root="doc"):
        """Document paths a value depends on."""
        return {DOC.match(m).group(0) for q in v.p | v.d for m in re.findall(r"doc(?:\['[^']*'\]|\[\*\]|\[\?\])+", q)}
