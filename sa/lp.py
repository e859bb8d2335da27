"""The linear programme a solver builds, as effects.

Every native call that edits the problem is recorded with the symbolic value of its arguments; rows of
the constraint matrix are recorded as their (column, coefficient) entries, and dictionaries and work
arrays that accumulate coefficients, costs or flows as the contributions added to them."""
import ast
import re

from .interp import V, E, NOK
from .gvn import Gvn, showx, show, add, neg, const, atom, conj, TRUE
from .terms import short

P1 = const(1)
EDITS = ["direction", "erase", "bounds_type", "bounds_lower", "bounds_upper", "cost", "entry", "row_shape", "matrix_row", "right_side",
         "right_side_range", "contribution", "assignment", "new_rows", "new_columns", "constraint"]


def filtered(t):
    """D, when t is an element of the positions in D that pass a test (``each(D; # if ..)[*{..}]``)."""
    n = len(t)
    k = t.find(")[*{")
    while k > 0:
        x = t[:k + 1]
        if t == "%s[*{%s}]" % (x, x) and x.startswith("each("):
            depth = 0
            for i in range(5, n):
                ch = t[i]
                if ch in "([{":
                    depth += 1
                elif ch in ")]}":
                    depth -= 1
                elif ch == ";" and not depth:
                    return x[5:i] if x[i:].startswith(("; # if ", "; #)")) else None
            return None
        k = t.find(")[*{", k + 1)
    return None


def position(p):
    out = {}
    for m, c in p:
        m = tuple(sorted(("*{%s}" % filtered(a) if filtered(a) else a, e) for a, e in m))
        out[m] = out.get(m, 0.0) + c
    return frozenset((m, c) for m, c in out.items() if c)


class LpGvn(Gvn):
    ALLOC = {"malloc", "calloc", "realloc"}
    failures = False                    # may a number be NaN, or a library call fail?

    def __init__(self, prog, dims=None):
        super().__init__(prog, dims)
        self.domstack = ()
        self.added = []

    # -- effects ---------------------------------------------------------------------
    def emit(self, kind, node, st, *args):
        args = [a if isinstance(a, V) or a is None else V(x=self.lift(position, a)) for a in args]
        self.event("call", kind, V(p=frozenset(["lp"])), [a if isinstance(a, V) else V(x=a) for a in args], {}, node, st)

    def val(self, a, st):
        x = self.operand(a, st)
        if x is None:
            x = self.term(a)
        return x if x is not None else self.x_un(ast.USub(), self.x_neg(a, st), None, st)

    def x_neg(self, a, st):
        return V(x=self.x_un(ast.USub(), a, None, st))

    def coerced(self, v):
        if v.x is None and not v.p and v.t and all(t[0] in ("ext", "builtin") for t in v.t):
            return v.with_(x=self.term(v))
        return v

    def text(self, s):
        return V(x=self.pure(atom(short(s))))

    def mem(self, a):
        for q in a.p:
            if q.startswith("new:mem"):
                return q
        return None

    def builtin(self, name, recv, args, kw, node, st):
        last = name.rsplit(".", 1)[-1]
        if recv is None:
            if last in self.ALLOC:
                self.ndef += 1
                return V(p=frozenset(["new:mem@%d" % self.ndef]))
            if last in ("setjmp", "isnan") and not self.failures:
                return V(t=frozenset([("num", "int")]), k=0)
            if last == "dict" and not args and not kw or last == "defaultdict" and len(args) <= 1 and not kw:
                return self.new_dict()
            if last == "sorted" and args:
                ds = self.dicts(args[0])
                if ds:
                    return args[0]
                x = self.term(args[0])
                if x is not None:
                    x = self.lift(lambda p: atom(short("sorted(%s)" % show(p))), x)
                    return V(t=frozenset([("list", self.elem_of(args[0]))]), d=args[0].d, x=x)
            if last == "len" and args and args[0].x is not None and len(args[0].x) > 1 and len(args[0].x) <= 4 and \
                    all(self.single(p) for p, _ in args[0].x):
                return V(t=frozenset([("num", "int")]), d=args[0].d,
                         x=self.lift(lambda p: atom("len(%s)" % self.dom_name(self.single(p))), args[0].x))
            if last == "len" and args:
                if self.dicts(args[0]) or self.slots(args[0]):
                    return V(t=frozenset([("num", "int")]), x=self.pure(atom("len(table)")))
                x = args[0].x
                if x is not None and len(x) == 1:
                    n = self.length(next(iter(x))[0])
                    if n is not None:
                        return V(t=frozenset([("num", "int")]), x=self.pure(n))
            r = self.native(last, args, node, st)
            if r is not None:
                return r
        return super().builtin(name, recv, args, kw, node, st)

    def length(self, p):
        """Length of a concatenation."""
        if len(p) < 2:
            return None
        n = const(0)
        for m, c in p:
            if c != 1 or len(m) != 1 or m[0][1] != 1:
                return None
            t = m[0][0]
            if t == "[0]":
                n = add(n, P1)
            elif t.startswith("each("):
                n = add(n, atom("len(%s)" % t))
            else:
                return None
        return n

    def native(self, last, args, node, st):
        v = [self.val(a, st) for a in args]
        if last in ("glp_set_obj_dir", "set_minim", "set_maxim"):
            d = showx(v[1]) if last == "glp_set_obj_dir" else "1" if last == "set_minim" else "2"
            if last != "glp_set_obj_dir" and len(args) > 1:
                d = d if args[1].k in (NOK, 1, True) else "2"
            self.emit("direction", node, st, self.text("minimise" if d == "1" else d))
        elif last in ("glp_erase_prob",):
            self.emit("erase", node, st)
        elif last in ("glp_set_row_bnds", "glp_set_col_bnds"):
            k = last[8:11]
            for what, i in (("type", 2), ("lower", 3), ("upper", 4)):
                self.emit("bounds_" + what, node, st, self.text(k), v[1], v[i])
        elif last in ("set_bounds",):
            self.emit("bounds_lower", node, st, self.text("col"), v[1], v[2])
            self.emit("bounds_upper", node, st, self.text("col"), v[1], v[3])
        elif last in ("set_lowbo", "set_upbo"):
            self.emit("bounds_lower" if last == "set_lowbo" else "bounds_upper", node, st, self.text("col"), v[1], v[2])
        elif last == "set_constr_type":
            self.emit("bounds_type", node, st, self.text("row"), v[1], v[2])
        elif last == "set_rh":
            self.emit("right_side", node, st, v[1], v[2])
        elif last == "set_rh_range":
            self.emit("right_side_range", node, st, v[1], v[2])
        elif last in ("glp_set_obj_coef", "set_obj"):
            self.emit("cost", node, st, v[1], v[2])
        elif last in ("glp_add_rows", "glp_add_cols"):
            k = "rows" if last.endswith("rows") else "columns"
            n = v[1]
            self.emit("new_" + k, node, st, n)
            return V(t=frozenset([("num", "int")]), x=self.lift(lambda p: atom(short("%s(%s)" % (k, show(p)))), n))
        elif last in ("get_Norig_rows", "get_Norig_columns"):
            k = "rows" if last.endswith("rows") else "columns"
            return V(t=frozenset([("num", "int")]), x=self.pure(atom("%s after %s" % (k, ", ".join(
                t for q, t in self.added if q == k) or "nothing"))))
        elif last == "add_columnex":
            self.grown("columns", node, st)
        elif last == "glp_set_mat_row":
            self.row(v[1], args[2], args[3], args[4], 1, node, st)
        elif last == "add_constraintex":
            i = self.text(" in ".join(reversed(self.domstack)) or "once").x
            self.row(i, args[1], args[3], args[2], 0, node, st)
            self.emit("constraint", node, st, i, v[4], v[5])
            self.grown("rows", node, st)
        else:
            return None
        return V(t=frozenset([("num", "int")]), x=self.pure(atom("%s(lp)" % last)))

    def grown(self, kind, node, st):
        t = (kind, " in ".join(reversed(self.domstack)) or "once")
        if t not in self.added:
            self.added.append(t)
        self.emit("new_" + kind, node, st, self.text(t[1]).x)

    def row(self, i, n, ind, val, first, node, st):
        """Entries of a row, and whether they fill the positions first .. first + length - 1."""
        a, b = self.mem(ind), self.mem(val)
        if a is None or b is None:
            self.emit("matrix_row", node, st, i, *[self.arr(x, st) for x in (n, ind, val)])
            return
        ci, cv = self.contents(a), self.contents(b)
        if set(ci) != set(cv) or None in ci:
            self.emit("entry", node, st, i, None)
            return
        length = self.val(n, st)
        for pos in sorted(ci):
            for e1 in ci[pos]:
                for e2 in cv[pos]:
                    c = conj(e1.cond, e2.cond)
                    if c:
                        self.emit("entry", node, st, i, e1.idx[1][1], e2.idx[1][1], self.over(e1.idx[0]))
                        self.evs[-1].cond = conj(self.evs[-1].cond, c)
        if length is None:
            self.emit("row_shape", node, st, i, None)
            return
        for p, c in length:
            blocks = [e.idx[0] for es in ci.values() for e in es[:1] if conj(e.cond, frozenset([c]))]
            r = self.tile(blocks, p, first)
            if r is None:
                self.emit("row_shape", node, st, i, None)
            else:
                self.emit("row_shape", node, st, i, self.text("complete" if r else "positions overlap or leave gaps").x)
                self.evs[-1].cond = conj(self.evs[-1].cond, frozenset([c]))

    def over(self, pos):
        """What the entries at these positions are enumerated from."""
        return self.text(", ".join(sorted(m[0][0] for m, _ in next(iter(pos))[0] if m and m[0][0].startswith("*{"))) or "single").x

    def arr(self, a, st):
        return V(x=self.val(a, st))

    def contents(self, q):
        out = {}
        for e in self.evs:
            if e.kind == "call" and e.name == "memory" and e.val == q:
                p = e.idx[0]
                out.setdefault(None if p is None else showx(p), []).append(e)
        return out

    def tile(self, blocks, length, first):
        """Do blocks of positions  offset + 0 .. len - 1  fill  first .. first + length - 1 ?"""
        todo = []
        for x in blocks:
            if x is None or len(x) != 1:
                return None
            p = next(iter(x))[0]
            labs = [m for m, c in p if len(m) == 1 and m[0][1] == 1 and m[0][0].startswith("*{") and c == 1]
            if len(labs) > 1:
                return None
            if labs:
                d = labs[0][0][0]
                n = atom("len(%s)" % d[2:-1])
                todo.append((add(p, neg(atom(d))), n))
            else:
                todo.append((p, P1))
        cur = const(first)
        while todo:
            nxt = [t for t in todo if t[0] == cur]
            if len(nxt) != 1:
                return False
            todo.remove(nxt[0])
            cur = add(cur, nxt[0][1])
        return cur == add(const(first), length)

    # -- dictionaries ----------------------------------------------------------------
    def one_of(self, x):
        return next(iter(x))[0] if x is not None and len(x) == 1 and len(next(iter(x))[0]) == 1 else ()

    def new_dict(self):
        return V(t=frozenset([("dict",)]), p=frozenset(["new:table"]))

    def ex_Dict(self, e, st):
        return super().ex_Dict(e, st) if e.keys else self.new_dict()

    def dicts(self, v):
        return [q for q in v.p if q == "new:table"]

    def slots(self, v):
        return [q for q in v.p if q.startswith("new:table<")]

    KEY, VAL = atom("key of the table"), atom("entry of the table")

    def domain(self, v):
        if self.dicts(v) or self.slots(v):
            return "table"
        return super().domain(v)

    def iter_elem(self, v, node, st, dom=None):
        if self.dicts(v):
            return V(t=frozenset([("num", "int")]), x=self.pure(self.KEY))
        if self.slots(v):
            return self.seq([V(x=self.pure(atom("item of the table[%d]" % i))) for i in (0, 1)])
        return super().iter_elem(v, node, st, dom)

    def opaque(self, name, recv, args, kw, node, st, func=None):
        if recv is not None and self.dicts(recv):
            if name == "items" and not args:
                el = self.seq([V(x=self.pure(self.KEY)), V(x=self.pure(self.VAL))])
                return V(t=frozenset([("list", E)]), x=self.pure(atom("table")), it=el)
            if name == "keys" and not args:
                return recv
            if name == "get" and len(args) == 2 and self.one(args[1]) == const(0):
                return V(x=self.marker(recv, args[0]), p=E)
            if name == "setdefault" and len(args) == 2:
                return V(t=frozenset([("list", E)]), p=self.slot(recv, args[0]))
        if name == "extend" and recv is not None and len(args) == 1 and self.slots(recv):
            for q in recv.p:
                self.contribute(q, self.between(q), self.val(args[0], st), node, st)
            return V()
        return super().opaque(name, recv, args, kw, node, st, func)

    def slot(self, b, k):
        return frozenset("%s<%s>" % (q, self.txt(k)) for q in self.dicts(b))

    def between(self, q):
        return self.pure(atom(q[q.index("<") + 1:-1])) if "<" in q else None

    def marker(self, b, k):
        x = self.term(k)
        return None if x is None else self.lift(lambda p: atom("old<%s>" % show(p)), x)

    def getitem(self, b, idx, node, st):
        if self.dicts(b) and len(idx) == 1:
            if self.term(idx[0]) == self.pure(self.KEY):
                return V(x=self.pure(self.VAL))
            return V(x=self.marker(b, idx[0]), p=self.slot(b, idx[0]))
        return super().getitem(b, idx, node, st)

    def contribute(self, q, k, x, node, st):
        self.emit("contribution", node, st, k, x)
        self.evs[-1].val = (q.split("<")[0], showx(k) if k is not None else None, showx(x) if x is not None else None)

    def setitem(self, b, idx, v, node, st, aug=None):
        m = self.mem(b)
        if m is not None and len(idx) == 1:
            p = self.term(idx[0])
            self.emit("memory", node, st, p, self.val(v, st))
            self.evs[-1].val = m
            self.evs[-1].idx = (p, self.evs[-1].idx[1], {})
            return
        if self.dicts(b) and len(idx) == 1:
            k, q = self.term(idx[0]), self.dicts(b)[0]
            old = self.marker(b, idx[0])
            if aug is not None and isinstance(aug[0], ast.Add):
                self.contribute(q, k, self.val(aug[2], st), node, st)
                return
            x = self.val(v, st)
            if x is not None and old is not None and len(old) == 1:
                o = next(iter(old))[0]
                (m0, c0), = o
                if all(dict(p).get(m0) == 1 for p, _ in x):
                    self.contribute(q, k, self.lift(lambda p: add(p, neg(o)), x), node, st)
                    return
            t = (q, showx(k) if k is not None else None, showx(x) if x is not None else None)
            self.contribute(q, k, x, node, st)
            self.evs[-1].name = "assignment"
            return
        if aug is not None and isinstance(aug[0], (ast.Add, ast.Sub)) and len(b.p) == 1 and len(idx) == 1:
            k, x = self.term(idx[0]), self.val(aug[2], st)
            if x is not None and isinstance(aug[0], ast.Sub):
                x = self.lift(neg, x)
            q = next(iter(b.p))
            if not q.startswith("self.stats"):
                self.emit("contribution", node, st, self.text(self.path(q)).x, k, x)
                self.evs[-1].val = (q, None, None)
        elif len(b.p) == 1 and aug is None:
            q = next(iter(b.p))
            it = self.idx_text(idx)
            x = self.val(v, st)
            if it is not None and x:
                cur = self.term(super().getitem(b, idx, node, st))
                olds = [((("%s[%s]" % (self.path(q), i), 1),)) for i in (it, "*")]
                for old in olds + [m for m, _ in self.one_of(cur)]:
                    if not all(dict(p).get(old) == 1 for p, _ in x):    # x[i] = x[i] + ..
                        continue
                    if not q.startswith("self.stats"):
                        d = self.lift(lambda p: add(p, neg(frozenset([(old, 1.0)]))), x)
                        self.emit("contribution", node, st, self.text(self.path(q)).x, self.term(idx[0]) if len(idx) == 1 else self.text(it).x, d)
                        self.evs[-1].val = (q, None, None)
                    super().setitem(b, idx, v, node, st, aug)
                    return
            self.emit("assignment", node, st, self.text(self.path(q)).x, None if it is None else self.text(it).x, self.val(v, st))
        super().setitem(b, idx, v, node, st, aug)

    def setattr(self, b, attr, v, node, st, aug=None):
        if attr.endswith("_data") or any("_data" in q.rsplit(".", 1)[-1] for q in b.p):
            for q in b.p:
                self.emit("assignment", node, st, self.text("%s.%s" % (self.path(q), attr)).x, self.text("all").x, self.val(v, st))
            return
        super().setattr(b, attr, v, node, st, aug)

    def listed(self, p, v=None):
        """A list that is one of several: a named one, or one value repeated."""
        if self.single(p):
            return v.with_(x=self.pure(p), t=frozenset(t for t in v.t if t != ("tup", ()))) if v is not None else True
        if len(p) == 1:
            (m, c), = p
            item = [a for a, e in m if e == 1 and a.startswith("[") and a.endswith("]") and "," not in a]
            size = [a for a, e in m if e == 1 and a.startswith("len(")]
            if c == 1 and len(m) == 2 and len(item) == len(size) == 1:
                try:
                    n = float(item[0][1:-1])
                except ValueError:
                    return None
                return V(t=frozenset([("list", E)]), x=self.pure(atom(size[0][4:-1])), it=V(x=self.pure(const(n)))) if v is not None else True
        return None

    # -- loops -----------------------------------------------------------------------
    def st_For(self, s, st):
        for n in ast.walk(s.iter):
            v = st.env.get(n.id) if isinstance(n, ast.Name) else None
            if v is not None and v.x is not None and 2 <= len(v.x) <= 6 and all(t[0] == "list" or t == ("tup", ()) for t in v.t) and \
                    all(self.listed(p) for p, _ in v.x):
                outs = []
                pc = self.pcof(st)
                for p in sorted({p for p, _ in v.x}, key=show):
                    c = conj(pc, frozenset(q for p2, q in v.x if p2 == p))
                    if not c:
                        continue
                    cur = st.copy()
                    self.setpc(cur, c)
                    cur.env[n.id] = w = self.listed(p, v)
                    r = self.st_For(s, cur)
                    if r is not None:
                        if r.env.get(n.id) is not None and r.env[n.id] == w:
                            r.env[n.id] = v
                        outs.append(r)
                return self.joinall(outs)
        mark = len(self.evs)
        itv = self.ev(s.iter, st.copy())
        del self.evs[mark:]
        save = self.domstack
        self.domstack = save + (str(self.domain(itv)),)
        pc = self.pcof(st)
        try:
            return super().st_For(s, st)
        finally:
            self.domstack = save
            if pc != TRUE:
                for e in self.evs[mark:]:
                    e.cond = conj(e.cond, pc)


class FailingLpGvn(LpGvn):
    failures = True
