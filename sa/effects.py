"""Field effects of a method on a concrete class: an ordered list of data reads and writes
of fields reachable from ``self`` with the conditions they happen under, obtained by the
abstract interpreter (helpers, super() chains and properties inlined)."""
import ast
import re

from .interp import Interp, V, E, NOK

MUTATORS_ACC = {"append", "extend", "add", "insert", "update", "appendleft", "setdefault", "pop", "popleft", "remove", "popitem", "sort"}
MUTATORS_FULL = {"clear", "fill"}


# values another component recomputes in every step
RUNTIME_QUERIES = {"get_value", "get_index", "get_all_values", "get_all_indices", "get_max_volume", "get_min_volume",
                   "get_all_max_volume", "get_all_min_volume", "get_max_flow", "get_min_flow", "get_cost", "get_level",
                   "get_area", "get_current_pc", "get_conversion_factor"}


def root(path):
    """Root field of an access path below self, e.g. self._a.b[*] -> _a."""
    m = re.match(r"self\.([A-Za-z_]\w*)", path)
    return m.group(1) if m else None


class Ev:
    __slots__ = ("kind", "field", "how", "node", "where", "guards", "must", "val", "deps", "func", "idx", "path")

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def __repr__(self):
        return "%s %s %s @%s g=%s" % (self.kind, self.field, self.how, self.where, self.guards)


class Effects(Interp):
    """Collects Ev records; ``must`` facts ('W', field) mean wholly written so far."""

    def __init__(self, prog):
        super().__init__(prog)
        self.evs = []

    def opaque(self, name, recv, args, kw, node, st, func=None):
        for a in args:
            self.use(a, node, st)
        r = super().opaque(name, recv, args, kw, node, st, func)
        if name in RUNTIME_QUERIES and recv is not None:
            r = r.with_(d=r.d | {"run:" + name})
        return r

    def x_join(self, a, b):
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "ix":
            return ("ix", a[1] if a[1] == b[1] else "part")
        return None

    def _ev(self, kind, field, how, node, st, **k):
        self.evs.append(Ev(kind=kind, field=field, how=how, node=node, where=self.loc(node), guards=st.guards,
                           must=st.must, func=self.fr.func if self.stack else None, **k))

    # reads
    def on_read(self, b, attr, res, node, st):
        if self.tgt:
            return
        if any(t[0] == "bound" for t in res.t):
            return
        if any(t[0] == "arr" for t in res.t):
            return          # a view: its elements are read where it is used
        if attr in self.LOC_ATTRS:
            return
        for q in b.p:
            if q == "self":
                self._ev("R", attr, "attr", node, st, path="self." + attr)
            else:
                r = root(q)
                if r and q.startswith("self."):
                    self._ev("R", r, "sub:" + attr, node, st, path=q + "." + attr)

    def on_subload(self, b, idx, res, node, st):
        if self.tgt:
            return
        for q in b.p:
            r = root(q)
            if r and q.rsplit(".", 1)[-1] not in self.LOC_ATTRS:
                self._ev("R", r, "item", node, st, idx=idx, path=q)

    # writes
    def on_write(self, b, attr, val, node, st, aug):
        for q in b.p:
            if q == "self":
                how = "aug" if aug else "assign"
                self._ev("W", attr, how, node, st, val=val, deps=val.d, path="self." + attr)
                st.must = st.must | {("W", attr)}
            elif root(q):
                self._ev("W", root(q), "sub:" + attr, node, st, val=val, deps=val.d, path=q + "." + attr)

    def full_index(self, idx):
        """'full' / 'elem' (one element, per scenario or otherwise) / 'part'."""
        kinds = []
        for v in idx:
            s = [t for t in v.t if t[0] == "slice"]
            if s:
                kinds.append("full" if s[0][1] else "part")
            elif isinstance(v.x, tuple) and v.x[0] == "ix":
                kinds.append(v.x[1])
            elif v.k is not NOK:
                kinds.append("part")
            elif any(q.endswith(".global_id") for q in v.p | v.d) or any(q.startswith("arg:") and "index" in q for q in v.p):
                kinds.append("elem")
            else:
                kinds.append("part")
        if all(k == "full" for k in kinds):
            return "full"
        if "part" in kinds:
            return "part"
        return "elem"

    def on_substore(self, b, idx, val, node, st, aug):
        if aug is None:
            self.use(val, node, st)
        fi = self.full_index(idx)
        for q in b.p:
            r = root(q)
            if r:
                how = ("aug" if aug else "item") + ":" + fi
                self._ev("W", r, how, node, st, val=val, deps=val.d, idx=idx, path=q)
                if fi in ("full", "elem") and q == "self." + r:
                    st.must = st.must | {("W", r)}

    def range_index(self, args, node, st):
        kind = "full"
        if len(args) >= 2 and not (args[0].k == 0):
            kind = "part"
        stop = args[1] if len(args) > 1 else (args[0] if args else None)
        if len(args) >= 3:
            kind = "part"
        if stop is not None and stop.x == "minus":
            kind = "part"
        if stop is not None and isinstance(stop.k, int):
            kind = "part"
        return V(t=frozenset([("num", "int")]), x=("ix", kind))

    def enum_index(self, v, node, st):
        return V(t=frozenset([("num", "int")]), x=("ix", "full"))

    def use(self, v, node, st):
        """v's elements are read as a whole."""
        if any(t[0] == "arr" for t in v.t):
            for q in v.p:
                r = root(q)
                if r:
                    self._ev("R", r, "whole", node, st, path=q)

    def on_compare(self, l, op, r, node, st):
        self.use(l, node, st)
        self.use(r, node, st)

    def on_return(self, func, val, node, st):
        if val is not None and len(self.stack) == 1:
            self.use(val, node, st)

    def on_loop(self, s, itv, st):
        if itv is not None:
            self.use(itv, s, st)

    def on_substore_val(self, val, node, st):
        self.use(val, node, st)

    def x_bin(self, op, l, r, node, st):
        self.use(l, node, st)
        self.use(r, node, st)
        for v in (l, r):
            if isinstance(v.x, tuple) and v.x[0] == "ix":
                return ("ix", "part")
        if isinstance(op, ast.Sub) and isinstance(r.k, int):
            return "minus"
        return None

    def x_attr(self, base, attr, res, node, st):
        if attr == "global_id":
            for q in base.p:
                if q.endswith("[*]"):
                    return ("ix", "full")       # every combination in turn
            return ("ix", "elem")
        return res.x

    def on_call(self, name, fv, recv, args, kw, node, st):
        if recv is not None and not any(t[0] in ("bound", "func") for t in fv.t):
            for q in recv.p:
                r = root(q)
                if not r:
                    continue
                if name in MUTATORS_ACC:
                    self._ev("W", r, "acc", node, st, deps=frozenset().union(*[a.d for a in args]) if args else E, path=q)
                elif name in MUTATORS_FULL:
                    self._ev("W", r, "clear", node, st, deps=frozenset().union(*[a.d for a in args]) if args else E, path=q)
                    if q == "self." + r:
                        st.must = st.must | {("W", r)}
        if not any(t[0] in ("bound", "func", "cls") for t in fv.t) and name != "len":
            for a in args:
                self.use(a, node, st)
            for k, a in kw.items():
                if k != "out":
                    self.use(a, node, st)
            if recv is not None and name not in MUTATORS_FULL:
                self.use(recv, node, st)
        outs = [kw["out"]] if "out" in kw else []
        for o in outs:
            for q in o.p:
                r = root(q)
                if r:
                    self._ev("W", r, "out", node, st, deps=E, path=q)
                    st.must = st.must | {("W", r)}
        return None

    def collect(self, func, cls, **kw):
        self.evs = []
        _, st = self.run(func, cls, **kw)
        return self.evs, st
