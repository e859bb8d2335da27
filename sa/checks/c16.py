"""C16  Output files are complete and closed for every run."""
import ast

from ..families import component_classes
from ..interp import E, Interp, State, V
from ..program import Cls
from ..report import Check
from ..spec import SpecRunner

OPENERS = {"open", "open_file", "HDFStore", "ExcelWriter", "ExcelFile", "ZipFile", "TarFile", "GzipFile", "BZ2File", "LZMAFile",
           "File", "fdopen", "NamedTemporaryFile", "TemporaryFile", "H5Store", "popen"}
MODULES = {"os.open", "webbrowser.open"}
CLOSE = {"close", "__exit__"}
PHASES = ("setup", "reset", "before", "after", "finish")


def opener(call):
    f = call.func
    return (f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None) in OPENERS \
        and ast.unparse(f) not in MODULES


class FileTrace(Interp):
    """Fields holding an open file: ``x`` is ("open", fields open when it was opened) or ("closed",)."""

    def __init__(self, prog, fields=()):
        super().__init__(prog)
        self.fields, self.opened, self.again, self.late = fields, {}, [], []

    def x_join(self, a, b):
        for x in (a, b):
            if isinstance(x, tuple) and x[0] == "open":
                return x
        return a if a == b else None

    def is_file(self, v):
        return isinstance(v.x, tuple) and v.x and v.x[0] in ("open", "closed")

    def truth(self, v):
        return True if self.is_file(v) else super().truth(v)

    def cmp_const(self, op, l, r):
        if isinstance(op, (ast.Is, ast.IsNot)):
            for a, b in ((l, r), (r, l)):
                if self.is_file(a) and b.k is None:
                    return isinstance(op, ast.IsNot)
        return super().cmp_const(op, l, r)

    def getattr(self, b, attr, node, st):
        if isinstance(b.x, tuple) and attr in ("closed", "isopen", "is_open"):
            return V(t=frozenset([("num", "bool")]), k=(b.x[0] == "closed") == (attr == "closed"))
        return super().getattr(b, attr, node, st)

    def open_now(self, st):
        return frozenset(f for f in self.fields if self.state(st, f) == "open")

    @staticmethod
    def state(st, f):
        v = st.heap.get("self." + f)
        return v.x[0] if v is not None and isinstance(v.x, tuple) and v.x else None

    def call(self, name, fv, recv, args, kw, node, st):
        if isinstance(node, ast.Call) and opener(node):
            return V(t=frozenset([("ext", "file")]), x=("open", self.open_now(st)))
        if recv is not None and name in CLOSE:
            for q in recv.p:
                if q.startswith("self.") and q in st.heap:
                    st.heap[q] = st.heap[q].with_(x=("closed",))
                elif q.startswith("self.") and q.endswith(".file") and q[:-5] in st.heap:
                    st.heap[q[:-5]] = st.heap[q[:-5]].with_(x=("closed",))
            if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id in st.env:
                n = node.func.value.id
                st.env[n] = st.env[n].with_(x=("closed",))
        return super().call(name, fv, recv, args, kw, node, st)

    def st_With(self, s, st):
        r = super().st_With(s, st)
        if r is not None:
            for it in s.items:
                e = it.context_expr
                if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and "self." + e.attr in r.heap:
                    r.heap["self." + e.attr] = r.heap["self." + e.attr].with_(x=("closed",))
        return r

    def on_write(self, b, attr, val, node, st, aug):
        if b.p == frozenset(["self"]) and isinstance(val.x, tuple) and val.x and val.x[0] == "open":
            self.opened.setdefault(attr, self.loc(node))
            if attr in val.x[1]:
                self.again.append((attr, self.loc(node)))


class C16(Check):
    id = "C16"
    technique = "typestate of file handles over the phases of a run (abstract interpretation), and reference equations of the writers"
    explanation = ("Every field of a component that is assigned an opened file is found. finish() is interpreted with the file open: "
                   "on each way to its end the file must be closed (or dropped, for handles that close when dropped). reset() (and "
                   "before/after) are interpreted with the file closed: a writer must have it open again. setup() and reset() are "
                   "interpreted with the file still open: it must be closed before it is opened again. Data still to be written is "
                   "written before the file is closed, never after. Files opened to a local name must be closed by a with "
                   "statement, a close() or by being handed on. The rows and arrays written per step are compared with reference "
                   "equations.")
    level_note = ("Decides the life of each handle for every order of the phases; what the library does with the bytes, and that "
                  "dropping an H5Store closes it, are assumed.")
    assumptions = ["dropping the last reference to a handle closes it (CPython); H5Store closes its file when dropped",
                   "the engine calls finish() for failed runs too (C05)"]

    def run(self):
        for fam, c in component_classes(self.prog):
            self.judge(fam, c)
        for m in self.prog.modules.values():
            for f in list(m.funcs.values()) + [g for c in m.classes.values() for g in list(c.methods.values()) +
                                               [x for pr in c.props.values() for x in pr.values() if x is not None]]:
                self.local(f)
        SpecRunner(self, self.id).run()
        self.floor("handle_fields", 4)
        self.floor("local_handles", 4)
        self.floor("functions_compared", 8)

    # -- handles kept in fields -------------------------------------------------------------------
    def phase(self, c, name, fields, state):
        f = c.find_method(name)
        if f is None:
            return None, None
        t = FileTrace(self.prog, fields)
        st = State()
        for x in fields:
            st.heap["self." + x] = V(t=frozenset([("ext", "file")]), p=frozenset(["self." + x]), x=state[x]) if state.get(x) else \
                V(t=frozenset([("none",)]), k=None, p=frozenset(["self." + x]))
        _, st = t.run(f, c, st=st)
        return t, st

    def fields_of(self, c):
        out = {}
        for n in PHASES:
            f = c.find_method(n)
            if f is None or not any(isinstance(x, ast.Call) and opener(x) for k in c.mro for g in k.methods.values()
                                    for x in ast.walk(g.node)):
                continue
            t = FileTrace(self.prog)
            t.run(f, c)
            for a, w in t.opened.items():
                out.setdefault(a, (n, w))
        return out

    def judge(self, fam, c):
        fields = self.fields_of(c)
        if not fields:
            return
        for F, (phase, where) in sorted(fields.items()):
            self.item("handle_fields", "%s.%s" % (c.name, F))
            # closed by the end of a run
            t, st = self.phase(c, "finish", [F], {F: ("open", E)})
            fin = c.find_method("finish")
            if t is None or (st is not None and FileTrace.state(st, F) == "open"):
                self.report("left-open", "%s.%s" % (c.name, F), fin.where if fin is not None else c.where,
                            "the file kept in %s (opened in %s, %s) is not closed on every way to the end of finish()" % (F, phase, where))
            # not opened over an open one
            for n in ("setup", "reset") if fam == "recorder" else ():
                t, st = self.phase(c, n, [F], {F: ("open", E)})
                if t is not None:
                    for a, w in t.again:
                        self.report("opened-again", "%s.%s:%s" % (c.name, a, n), w, "%s() opens the file of %s again while the one opened "
                                    "before may still be open (a model may be set up, or a run started, more than once)" % (n, a))
            # open in every run
            if fam == "recorder":
                state, seen = {F: None}, []
                for n in ("reset", "before", "after"):
                    t, st = self.phase(c, n, [F], state)
                    if t is None or st is None:
                        continue
                    seen.append(n)
                    if FileTrace.state(st, F) == "open":
                        break
                else:
                    self.report("not-reopened", "%s.%s" % (c.name, F), c.where, "finish() closes the file of %s, but none of %s opens it "
                                "again for the next run" % (F, ", ".join(seen)))
            self.order(c, F, fin)

    def order(self, c, F, fin):
        """Nothing is written once the file is closed."""
        if fin is None:
            return
        users = set()
        for n in PHASES[:4]:
            for k in c.mro:
                g = k.methods.get(n)
                if g is not None and any(self.own(x) == F for x in ast.walk(g.node)):
                    users |= {self.own(x) for x in ast.walk(g.node) if self.own(x) and isinstance(x.ctx, ast.Store)}
        users -= {F}
        for g in self.reach(c, fin):
            closed = None
            for s in g.node.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        base = x.func.value
                        while isinstance(base, (ast.Attribute, ast.Subscript)) and self.own(base) is None:
                            base = base.value
                        if closed is not None and closed is not s and (self.own(base) in users):
                            self.report("written-late", "%s.%s:%s" % (c.name, F, self.own(base)), "%s:%d" % (g.where.rsplit(":", 1)[0], x.lineno),
                                        "%s is used after the file of %s was closed" % (self.own(base), F))
                        m = c.find_method(x.func.attr) if isinstance(base, ast.Name) and base.id == "self" else None
                        if closed is not None and closed is not s and m is not None and m is not fin and \
                                any(self.own(y) in users and isinstance(y.ctx, ast.Load) for h in self.reach(c, m) for y in ast.walk(h.node)):
                            self.report("written-late", "%s.%s:%s" % (c.name, F, m.name), "%s:%d" % (g.where.rsplit(":", 1)[0], x.lineno),
                                        "%s() writes after the file of %s was closed" % (m.name, F))
                        if x.func.attr in CLOSE and F in {self.own(y) for y in ast.walk(x.func.value)}:
                            closed = closed or s
                    if isinstance(x, ast.Attribute) and self.own(x) == F and isinstance(x.ctx, (ast.Store, ast.Del)):
                        closed = closed or s

    @staticmethod
    def own(x):
        return x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" else None

    def reach(self, c, f):
        """f and the methods of the same object it calls."""
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            if g in out:
                continue
            out.append(g)
            for x in ast.walk(g.node):
                if isinstance(x, ast.Call) and self.own(x.func):
                    m = c.find_method(x.func.attr)
                    if m is not None:
                        todo.append(m)
        return out

    # -- handles kept in local names ----------------------------------------------------------------
    def local(self, f):
        par = {}
        for n in ast.walk(f.node):
            for ch in ast.iter_child_nodes(n):
                par[ch] = n
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and opener(n)):
                continue
            h, up = n, par.get(n)
            while isinstance(up, (ast.IfExp, ast.BoolOp, ast.NamedExpr)):
                h, up = up, par.get(up)
            if isinstance(up, ast.withitem) or isinstance(up, (ast.Return, ast.Yield, ast.Call, ast.keyword)):
                self.count("local_handles")
                continue
            if isinstance(up, (ast.Assign, ast.AnnAssign)):
                ts = up.targets if isinstance(up, ast.Assign) else [up.target]
                if any(isinstance(t, ast.Attribute) for t in ts):
                    continue
                self.count("local_handles")
                names = {t.id for t in ts if isinstance(t, ast.Name)}
                if self.released(f, names, n):
                    continue
            else:
                self.count("local_handles")
                if isinstance(up, ast.Attribute) and self.is_store(n):
                    continue
            self.report("leaked", "%s:%s" % (f.qual, ast.unparse(n.func)), "%s:%d" % (f.where.rsplit(":", 1)[0], n.lineno),
                        "the file opened here is not closed on every way out: use with, or close it in a finally")

    @staticmethod
    def is_store(call):
        return ast.unparse(call.func).rsplit(".", 1)[-1] == "H5Store"

    def released(self, f, names, call):
        if self.is_store(call):
            return True            # closes its file when dropped
        for n in ast.walk(f.node):
            if isinstance(n, ast.withitem) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.context_expr)):
                return True
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id in names:
                return True
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                return True        # kept elsewhere
            if isinstance(n, ast.Try):
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CLOSE and \
                                isinstance(x.func.value, ast.Name) and x.func.value.id in names:
                            return True
        return False


CHECK = C16
