"""Where the file names of a document end up: interprets a loader in one configuration of
(file name absolute or not) x (base directory unknown / a directory / a document)."""
import ast

from .doctrace import DocTrace
from .interp import V, E, NOK
from .program import Cls

STR = frozenset([("str",)])
DIR, FILE, PARENT = "<DIR>", "<FILE>", "<PARENT>"
READ = {"read_csv", "read_excel", "read_hdf", "read_table", "read_json", "read_parquet", "read_feather", "read_pickle", "read_r",
        "loadtxt", "genfromtxt", "run_path", "fromfile", "HDFStore"}
OPEN = {"open", "open_file", "File"}
WRITE = {"to_csv", "to_hdf", "to_excel", "savetxt"}
IDENT = {"str", "Path", "fspath", "PurePath", "expanduser", "normpath"}


class Sink:
    def __init__(self, ev, name, arg, read):
        self.ev, self.name, self.arg, self.read = ev, name, arg, read


class PathTrace(DocTrace):
    def __init__(self, prog, isabs, base, pathkeys=()):
        super().__init__(prog)
        self.isabs, self.base, self.pathkeys = isabs, base, set(pathkeys)
        self.sinks = []
        self.stored = {}        # (class, attr) -> set of path strings
        self.hashes = []
        self.model = prog.cls("_model.Model")
        self.store_cls = prog.cls("h5tools.H5Store")

    def basev(self):
        if self.base is None:
            return V(t=frozenset([("none",)]), k=None)
        return V(t=STR, p=frozenset([self.base]), d=frozenset([self.base]), k=self.base)

    # values ------------------------------------------------------------------------------------
    def take(self, recv, k, how, node, st):
        r = super().take(recv, k, how, node, st)
        if r.p and r.p <= self.pathkeys:
            r = r.with_(t=STR, k="\0" + min(r.p))
        return r

    def getattr(self, b, attr, node, st):
        if attr == "path" and any(self.model in c.mro for c in b.insts()):
            return self.basev()
        return super().getattr(b, attr, node, st)

    def inline(self, func, recv, node, st):
        if func.cls is not None and func.cls in self.model.mro and func.name not in self.keep and \
                not func.name.startswith(("load", "_load")) and func.kind in ("method", "static") and len(func.node.body) < 8:
            return True
        return super().inline(func, recv, node, st)

    def is_doc(self, v):
        return bool(v.p) and all(q.startswith("doc[") for q in v.p)

    def pjoin(self, a, b, d):
        if self.isabs and self.is_doc(b):
            return b
        ps = frozenset("%s/%s" % (x, y) for x in (a.p or {"?"}) for y in (b.p or {"?"}))
        return V(t=STR, p=ps, d=d | ps, k="\0" + min(ps))

    def builtin(self, name, recv, args, kw, node, st):
        last = name.rsplit(".", 1)[-1]
        if args:
            a, d = args[0], E
            for x in args:
                d |= x.d | x.p
            if "path" in name or last in IDENT:
                if last == "isabs" and self.is_doc(a):
                    return V(d=d, k=self.isabs)
                if last == "join":
                    r = args[0]
                    for b in args[1:]:
                        r = self.pjoin(r, b, d)
                    return r
                if a.p and a.p <= {DIR, FILE, PARENT}:
                    one = min(a.p)
                    if last == "dirname":
                        p = frozenset([DIR if one == FILE else PARENT])
                        return V(t=STR, p=p, d=p, k=min(p))
                    if last in ("isdir", "isfile", "exists"):
                        return V(d=d, k={"isdir": one != FILE, "isfile": one == FILE, "exists": True}[last])
                    if last in IDENT or last in ("abspath", "realpath"):
                        return a
                if last in IDENT and a.p:
                    return a
                if last in ("abspath", "realpath") and self.is_doc(a):
                    if self.isabs or self.base is None:
                        return a
                    return V(t=STR, p=frozenset("<CWD>/" + q for q in a.p), d=d, k="\0cwd")
                if last in ("abspath", "realpath") and a.p and all(q.startswith(DIR + "/") for q in a.p):
                    return a
                if last == "isabs" and a.p and all(q.startswith("<CWD>/") for q in a.p):
                    return V(d=d, k=True)
                if "path" in name and last in ("basename", "dirname", "relpath", "abspath", "realpath", "commonpath") and \
                        any("doc[" in q for q in a.p):
                    p = frozenset("%s of %s" % (last, q) for q in a.p)
                    return V(t=STR, p=p, d=d | p, k="\0" + min(p))
        self.sink(last, args, kw, node, st)
        return super().builtin(name, recv, args, kw, node, st)

    def binop(self, op, l, r, node, st):
        if isinstance(op, ast.Div) and any("<" in q or q.startswith("doc[") for q in l.p | r.p):
            return self.pjoin(l, r, l.d | r.d)
        return super().binop(op, l, r, node, st)

    def opaque(self, name, recv, args, kw, node, st, func=None):
        if recv is not None and recv.p and recv.p <= {DIR, FILE, PARENT} and name in ("is_dir", "is_file", "exists"):
            one = min(recv.p)
            return V(k={"is_dir": one != FILE, "is_file": one == FILE, "exists": True}[name])
        if recv is not None and self.is_doc(recv) and name == "is_absolute":
            return V(k=self.isabs)
        if recv is not None and recv.p == frozenset(["arg:**"]) and name in ("pop", "get") and args and args[0].k == "path":
            return self.basev()
        if name == "check_hash":
            self.hashes.append((self.evs[-1], list(args), dict(kw)))
        self.sink(name, args, kw, node, st)
        return super().opaque(name, recv, args, kw, node, st, func)

    def getitem(self, b, idx, node, st):
        if b.p == frozenset(["arg:**"]) and len(idx) == 1 and idx[0].k == "path":
            return self.basev()
        r = super().getitem(b, idx, node, st)
        if r.p and r.p <= self.pathkeys:
            r = r.with_(t=STR, k="\0" + min(r.p))
        return r

    def iter_elem(self, v, node, st):
        r = super().iter_elem(v, node, st)
        if self.docs(v) and not (r.p or r.t):
            p = frozenset(q + "[*]" for q in self.docs(v))
            r = r.with_(p=p, d=r.d | p)
        if r.p and r.p <= self.pathkeys:
            r = r.with_(t=STR, k="\0" + min(r.p))
        return r

    # sinks --------------------------------------------------------------------------------------
    def sink(self, last, args, kw, node, st):
        if last in READ or last in OPEN or last in WRITE:
            a = args[0] if args else next((kw[k] for k in ("filepath_or_buffer", "io", "path_or_buf", "file", "filename", "fname",
                                                           "name", "path_name", "path") if k in kw), None)
            if a is not None:
                self.sinks.append(Sink(self.evs[-1] if self.evs else None, last, a, self.reads_(last, args, kw)))

    def reads_(self, last, args, kw):
        if last in WRITE:
            return False
        if last in READ:
            return True
        m = kw.get("mode", args[1] if len(args) > 1 else None)
        return m is None or isinstance(m.k, str) and m.k.startswith("r")

    def construct(self, c, args, kw, node, st):
        if c is self.store_cls:
            m = kw.get("mode", args[2] if len(args) > 2 else None)
            a = kw.get("filename", args[0] if args else None)
            if a is not None:
                self.sinks.append(Sink(self.evs[-1] if self.evs else None, c.name, a,
                                       m is None or isinstance(m.k, str) and m.k.startswith("r")))
        r = super().construct(c, args, kw, node, st)
        f = c.find_method("__init__")
        ps = [v for v in list(args) + list(kw.values()) if any("doc[" in q or q in (DIR, FILE, PARENT) for q in v.p)]
        if f is not None and ps and self.can_call(f) and c is not self.store_cls:
            self.call_func(f, r, [a for a in args], {k: v for k, v in kw.items() if k not in ("*", "**")}, node, st)
        return r

    def on_write(self, b, attr, val, node, st, aug):
        for c in b.insts():
            self.stored.setdefault((c, attr), set()).update(val.p if val.k is not None else {"None"})
        return super().on_write(b, attr, val, node, st, aug)
