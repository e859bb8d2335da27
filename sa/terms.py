"""Algebraic value numbering: every value carries the finite set of polynomial normal forms
(over access paths, call results and a few interpreted functions) it may be equal to.
Spelling, helper functions, statement order and commutativity disappear in the normal form."""
import ast

from .interp import Interp, V, E, NOK, State, TOP, DEAD
from .trace import CallTrace
from .program import Cls

CAP = 10
INF = float("inf")


# ---- polynomials: frozenset of (monomial, coefficient); monomial = tuple of (atom, exponent) ----------
def const(c):
    c = float(c)
    return frozenset([((), c)]) if c != 0 else frozenset()


def short(a, n=20000):
    if len(a) > n:
        import hashlib
        return a[:40] + "~" + hashlib.sha1(a.encode()).hexdigest()[:10]
    return a


def atom(a):
    a = short(a)
    return frozenset([(((a, 1),), 1.0)])


def _norm(d):
    return frozenset((m, c) for m, c in d.items() if c != 0)


def add(a, b, s=1.0):
    d = {}
    for m, c in a:
        d[m] = d.get(m, 0) + c
    for m, c in b:
        d[m] = d.get(m, 0) + s * c
    return _norm(d)


def mul(a, b):
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            e = dict(m1)
            for x, n in m2:
                e[x] = e.get(x, 0) + n
            m = tuple(sorted((x, n) for x, n in e.items() if n))
            d[m] = d.get(m, 0) + c1 * c2
    return _norm(d)


def inv(a):
    if len(a) == 1:
        (m, c), = a
        return frozenset([(tuple(sorted((x, -n) for x, n in m)), 1.0 / c)])
    if not a:
        return atom("inf")
    return frozenset([((("(" + show(a) + ")", -1),), 1.0)])


def num(p):
    """Constant value of a polynomial or None."""
    if not p:
        return 0.0
    if len(p) == 1:
        (m, c), = p
        if not m:
            return c
    return None


def neg(p):
    return frozenset((m, -c) for m, c in p)


def fmt(c):
    return ("%d" % c) if abs(c) < 1e15 and c == int(c) else "%.12g" % c


def show(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p, key=lambda t: (str(t[0]), t[1])):
        s = "*".join(x if n == 1 else "%s^%d" % (x, n) for x, n in m)
        if not s:
            s = fmt(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = fmt(c) + "*" + s
        out.append(s)
    return " + ".join(out)


def showt(t):
    return "?" if t is None else " | ".join(sorted(show(p) for p in t))


def atoms(p):
    return {x for m, _ in p for x, _ in m}


def T(*ps):
    return frozenset(ps)


def mm(name, ps):
    """min/max of a set of polynomials."""
    flat = set()
    for p in ps:
        flat.add(p)
    ns = [num(p) for p in flat if num(p) is not None]
    rest = {p for p in flat if num(p) is None}
    if ns:
        best = max(ns) if name == "max" else min(ns)
        if not rest:
            return const(best)
        if not (best == (-INF if name == "max" else INF)):
            rest.add(const(best))
    if len(rest) == 1:
        return next(iter(rest))
    items = set()
    for p in rest:
        a = list(p)
        # flatten nested max(max(a,b),c)
        if len(a) == 1 and len(a[0][0]) == 1 and a[0][1] == 1 and a[0][0][0][1] == 1 and a[0][0][0][0].startswith(name + "{"):
            items |= set(a[0][0][0][0][len(name) + 1:-1].split("; "))
        else:
            items.add(show(p))
    return atom("%s{%s}" % (name, "; ".join(sorted(items))))


class Terms(CallTrace):
    """CallTrace whose values carry terms in ``x``; writes and calls keep them."""

    def __init__(self, prog):
        super().__init__(prog)
        self.fresh = 0

    # -- term of a value -----------------------------------------------------------
    def term(self, v):
        if v.x is not None:
            return v.x
        if v.k is not NOK and isinstance(v.k, (int, float)) and v.k is not None:
            return T(const(v.k))
        if v.k is not NOK and isinstance(v.k, str):
            return T(atom(repr(v.k)))
        if v.k is None and v.t == frozenset([("none",)]):
            return T(atom("None"))
        if v.p and len(v.p) <= 4:
            return frozenset(atom(self.path(p)) for p in v.p)
        fs = [t[1] for t in v.t if t[0] in ("ext", "builtin")]
        if fs:
            return T(atom(fs[0]))
        return None

    def path(self, p):
        return p

    def one(self, v):
        t = self.term(v)
        return next(iter(t)) if t is not None and len(t) == 1 else None

    def txt(self, v):
        return showt(self.term(v))

    def join_v(self, a, b):
        r = super().join_v(a, b)
        if a is b or a == b:
            return r
        x, y = self.term(a), self.term(b)
        if x is None or y is None:
            return r.with_(x=None, p=E) if r.x is not None or r.p else r
        u = x | y
        return r.with_(x=u if len(u) <= CAP else None)

    def x_join(self, a, b):
        if a is None or b is None:
            return None
        u = a | b
        return u if len(u) <= CAP else None

    # -- operations -------------------------------------------------------------------
    def lift(self, f, *ts):
        if any(t is None for t in ts):
            return None
        out = {()}
        for t in ts:
            out = {o + (p,) for o in out for p in t}
            if len(out) > 64:
                return None
        r = set()
        for o in out:
            q = f(*o)
            if q is None:
                return None
            r.add(q)
        return frozenset(r) if len(r) <= CAP else None

    def x_bin(self, op, l, r, node, st):
        a, b = self.term(l), self.term(r)
        if isinstance(op, ast.Add):
            return self.lift(add, a, b)
        if isinstance(op, ast.Sub):
            return self.lift(lambda x, y: add(x, y, -1.0), a, b)
        if isinstance(op, ast.Mult):
            return self.lift(mul, a, b)
        if isinstance(op, ast.Div):
            return self.lift(lambda x, y: mul(x, inv(y)) if y else None, a, b)
        if isinstance(op, ast.Pow):
            def pw(x, y):
                n = num(y)
                if n is not None and n == int(n) and 0 <= n <= 4:
                    r = const(1)
                    for _ in range(int(n)):
                        r = mul(r, x)
                    return r
                return atom("pow(%s, %s)" % (show(x), show(y)))
            return self.lift(pw, a, b)
        nm = type(op).__name__
        return self.lift(lambda x, y: atom("%s(%s, %s)" % (nm, show(x), show(y))), a, b)

    def x_un(self, op, v, node, st):
        t = self.term(v)
        if isinstance(op, ast.USub):
            return self.lift(neg, t)
        if isinstance(op, ast.UAdd):
            return t
        return None

    def x_attr(self, b, attr, res, node, st):
        if res.x is None and not res.p:
            t = self.term(b)
            if t is not None and len(t) == 1:
                return T(atom("%s.%s" % (show(next(iter(t))), attr)))
        return res.x

    def idx_text(self, idx):
        out = []
        for v in idx:
            s = [t for t in v.t if t[0] == "slice"]
            if s:
                out.append(":" if s[0][1] else "part")
            else:
                out.append(self.txt(v))
        return ",".join(out)

    def x_sub(self, b, idx, res, node, st):
        if res.x is not None:
            return res.x
        tb = self.one(b)
        if tb is None:
            return None
        if all(any(t == ("slice", True) for t in v.t) for v in idx):
            return T(tb)
        return T(atom("%s[%s]" % (show(tb), self.idx_text(idx))))

    def getitem(self, b, idx, node, st):
        r = super().getitem(b, idx, node, st)
        return r

    def x_iter(self, v, node, st):
        tb = self.one(v) if v.it is None else None
        if v.it is not None and v.it.x is not None:
            return v.it.x
        if tb is None:
            return None
        return T(atom(show(tb) + "[*]"))

    def enum_index(self, v, node, st):
        return V(t=frozenset([("num", "int")]), x=T(atom("*")))

    def range_index(self, args, node, st):
        r = super().range_index(args, node, st)
        return r.with_(x=T(atom("*")))

    ABS = {"abs", "fabs", "np.abs", "numpy.abs"}

    def fname(self, name):
        for a, b in (("numpy.", "np."),):
            if name.startswith(a):
                name = b + name[len(a):]
        return name

    def x_builtin(self, name, args, kw, node, st):
        name = self.fname(name)
        if name in ("float", "np.asarray", "np.array", "np.float64", "float64") and len(args) == 1 and name == "float" or \
                name in ("np.asarray", "np.array") and args:
            a = args[0]
            if isinstance(a.k, str):
                try:
                    return T(const(float(a.k)))
                except ValueError:
                    return None
            return self.term(a)
        if name in ("max", "min", "np.maximum", "np.minimum", "fmax", "fmin") and len(args) >= 2:
            return self.lift(lambda *ps: mm("max" if "max" in name else "min", ps), *[self.term(a) for a in args])
        if name == "len" and args:
            t = self.one(args[0])
            return T(atom("len(%s)" % show(t))) if t is not None else None
        return self.apply(name, args, kw)

    def apply(self, name, args, kw):
        ts = []
        for a in args:
            ts.append(self.txt(a))
        ts += ["%s=%s" % (k, self.txt(v)) for k, v in sorted(kw.items())]
        return T(atom("%s(%s)" % (name, ", ".join(ts))))

    def builtin(self, name, recv, args, kw, node, st):
        r = super().builtin(name, recv, args, kw, node, st)
        if r.x is None and not r.p:
            r = r.with_(x=self.x_builtin(name, args, kw, node, st))
        elif r.p and r.x is None:
            pass
        return r

    def opaque(self, name, recv, args, kw, node, st, func=None):
        r = super().opaque(name, recv, args, kw, node, st, func)
        if recv is not None:
            t = self.one(recv)
            if t is None and recv.p:
                t = atom("|".join(sorted(recv.p)))
            if t is not None:
                name = "%s.%s" % (show(t), name)
            else:
                name = "?." + name
        ts = [self.txt(a) for a in args] + ["%s=%s" % (k, self.txt(v)) for k, v in sorted(kw.items())]
        return r.with_(x=T(atom("%s(%s)" % (name, ", ".join(ts)))), p=E)

    def comp(self, e, elt, st):
        v = super().comp(e, elt, st)
        return v

    def seq(self, vs):
        r = super().seq(vs)
        ts = [self.txt(v) for v in vs]
        return r.with_(x=T(atom("[%s]" % ", ".join(ts))))

    def ex_ListComp(self, e, st):
        r = super().ex_ListComp(e, st)
        t = self.term(r.it) if r.it is not None else None
        return r.with_(x=T(atom("each(%s)" % showt(t))) if t is not None else None)

    ex_SetComp = ex_ListComp
    ex_GeneratorExp = ex_ListComp

    def on_substore(self, b, idx, val, node, st, aug):
        super().on_substore(b, idx, val, node, st, aug)
        self.event("store", self.idx_text(idx), b, [val], {}, node, st, val=val)
        self.evs[-1].aug = aug
        self.evs[-1].idx = idx

    def getattr(self, b, attr, node, st):
        r = super().getattr(b, attr, node, st)
        for t in r.t:
            if t[0] == "enum_member":
                r = r.with_(k="%s.%s" % (t[1], t[2]))
        return r

    # -- stored values keep their term -------------------------------------------------
    def setattr(self, b, attr, v, node, st, aug=None):
        t = self.term(v)
        super().setattr(b, attr, v, node, st, aug)
        if len(b.p) == 1:
            q = next(iter(b.p)) + "." + attr
            if q in st.heap:
                st.heap[q] = st.heap[q].with_(x=t)

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name) and v.x is None:
            x = self.term(v)
            if x is not None:
                v = v.with_(x=x)
        super().assign(t, v, st, node)

    # -- conditional minimum / maximum ----------------------------------------------------
    def _cmp(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self._cmp(e.operand, st)
            return None if c is None else (c[0], c[1], -c[2])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            s = {ast.Lt: -1, ast.LtE: -1, ast.Gt: 1, ast.GtE: 1}.get(type(e.ops[0]))
            if s:
                l, r = self.one(self.ev(e.left, st)), self.one(self.ev(e.comparators[0], st))
                if l is not None and r is not None:
                    return (l, r, s)
        return None

    def _sel(self, cmp, a, b):
        """Value a when the comparison holds, b otherwise -> min/max term or None."""
        if a is None or b is None or len(a) != 1 or len(b) != 1:
            return None
        (x,), (y,) = a, b
        l, r, s = cmp
        if (x, y) == (l, r):
            return T(mm("max" if s > 0 else "min", [x, y]))
        if (x, y) == (r, l):
            return T(mm("min" if s > 0 else "max", [x, y]))
        return None

    def st_If(self, s, st):
        cmp = self._cmp(s.test, st.copy())
        if cmp is None:
            return super().st_If(s, st)
        ends = {}
        save = self.join
        depth = len(self.stack)
        me = self

        def join(a, b):
            r = Interp.join(me, a, b)
            if a is not None and b is not None and len(me.stack) == depth:
                ends["ab"] = (a, b, r)
            return r
        self.join = join
        try:
            # the last join made at this level is the one of the two branches
            r = super().st_If(s, st)
        finally:
            self.join = save
        ab = ends.get("ab")
        if ab and ab[2] is r and r is not None:
            a, b, _ = ab
            for ea, eb, er in ((a.env, b.env, r.env), (a.heap, b.heap, r.heap)):
                for n, v in list(er.items()):
                    if n in ea and n in eb and ea[n] != eb[n]:
                        t = self._sel(cmp, self.term(ea[n]), self.term(eb[n]))
                        if t is not None:
                            er[n] = v.with_(x=t, p=E)
        return r

    def ex_IfExp(self, e, st):
        cmp = self._cmp(e.test, st.copy())
        r = super().ex_IfExp(e, st)
        if cmp is not None:
            a, b = self.term(self.ev(e.body, st.copy())), self.term(self.ev(e.orelse, st.copy()))
            t = self._sel(cmp, a, b)
            if t is not None:
                return r.with_(x=t, p=E)
        return r

    # -- accumulation ------------------------------------------------------------------------
    def loop(self, s, st, enter, infinite=False):
        names = {}
        stores = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores.add(n.id)
        self.fresh += 1
        tag = "@%d" % self.fresh
        for n in stores:
            v = st.env.get(n)
            if v is not None and self.reads_own(s, n):
                t = self.term(v)
                if t is not None:
                    names[n] = (v, t)
        if not names:
            return super().loop(s, st, enter, infinite)
        pre = st.copy()
        for n, (v, t) in names.items():
            st.env[n] = v.with_(x=T(atom("acc:%s%s" % (n, tag))), p=E, k=NOK)
        muted = self.evs
        mark = len(self.evs)
        probe = st.copy()
        # one pass to see how the accumulators change
        fr = self.fr
        lp = {"break": [], "continue": []}
        nret, nraise = len(fr.returns), len(self.raised)
        fr.loops.append(lp)
        body = probe
        enter(body)
        end = self.block(s.body, body)
        fr.loops.pop()
        end = self.joinall(([end] if end is not None else []) + lp["continue"])
        del fr.returns[nret:]
        del self.raised[nraise:]
        del self.evs[mark:]
        res = {}
        if end is not None:
            for n, (v, t) in names.items():
                acc = "acc:%s%s" % (n, tag)
                x = self.term(end.env[n]) if n in end.env else None
                res[n] = self.closed(acc, x, t, end.env.get(n, v))
        # interpret the loop proper with the accumulators symbolic (for events inside it)
        st.env.clear()
        st.env.update(pre.env)
        st.heap, st.must, st.guards = pre.heap, pre.must, pre.guards
        for n, (v, t) in names.items():
            if res.get(n) is not None:
                st.env[n] = v.with_(x=T(atom("acc:%s" % n)), p=E, k=NOK)
        save = self.join_v
        out = super().loop(s, st, enter, infinite)
        if out is not None:
            for n, r in res.items():
                if r is not None and n in out.env:
                    out.env[n] = out.env[n].with_(x=r, p=E, k=NOK)
        return out

    def reads_own(self, s, name):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return True
        return False

    def closed(self, acc, x, init, endv):
        """Closed form of an accumulator after the loop or None."""
        if x is None or len(init) != 1:
            return None
        i0, = init
        deltas, kinds = set(), set()
        for p in x:
            if p == atom(acc):
                deltas.add(("id",))
                continue
            co = [c for m, c in p if m == ((acc, 1),)]
            rest = frozenset((m, c) for m, c in p if m != ((acc, 1),))
            if co and co[0] == 1 and not any(acc in a for a in atoms(rest)):
                kinds.add("sum")
                deltas.add(("sum", show(rest)))
                continue
            if len(p) == 1:
                (m, c), = p
                e = dict(m)
                if e.get(acc) == 1 and c == 1:
                    q = frozenset([(tuple(t for t in m if t[0] != acc), 1.0)])
                    if not any(acc in a for a in atoms(q)):
                        kinds.add("prod")
                        deltas.add(("prod", show(q)))
                        continue
                if len(m) == 1 and c == 1 and m[0][1] == 1:
                    a = m[0][0]
                    for f in ("max", "min"):
                        if a.startswith(f + "{"):
                            items = a[len(f) + 1:-1].split("; ")
                            if acc in items:
                                items.remove(acc)
                                if not any(acc in t for t in items):
                                    kinds.add(f)
                                    deltas.add((f, "; ".join(items)))
                                    break
                    else:
                        return None
                    continue
            return None
        if len(kinds) != 1:
            return None
        k = kinds.pop()
        cond = " if" if ("id",) in deltas else ""
        body = " | ".join(sorted(d[1] for d in deltas if len(d) > 1))
        if k == "sum":
            return T(add(i0, atom("sum%s(%s)" % (cond, body))))
        if k == "prod":
            return T(mul(i0, atom("prod%s(%s)" % (cond, body))))
        n = num(i0)
        if n is not None and n == (-INF if k == "max" else INF):
            return T(atom("%s%s(%s)" % (k, cond, body)))
        return T(atom("%s%s(%s; init %s)" % (k, cond, body, show(i0))))
