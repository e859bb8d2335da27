"""Gated value numbering.

Every value is a finite set of (normal form, condition) pairs.  Normal forms are polynomials over
access paths, element accesses, calls and interpreted operations (sum / product / min / max over a
collection); conditions are conjunctions of literals over comparisons and tests in normal form.
Helpers are inlined, locals, statement order, branch order and early exits disappear, loops over a
collection become reductions or element-wise updates.  Two functions with the same summary compute
the same thing; a value the domain cannot express is None ("undecided") and is never reported.
"""
import ast
import itertools
import re
import zlib

from .interp import Interp, V, E, NOK, State, TOP, Cond
from .trace import CallTrace
from .program import Cls, Func
from .terms import const, atom as _atom, short, add, mul, inv, num, neg, show, atoms, mm as _mm

CAP = 100
PCAP = 40
INF = float("inf")
PC = "\0pc"
TRUE = frozenset([E])
FALSE = frozenset()


def atom(a):
    return frozenset([(((a, 1),), 1.0)])


P_TRUE, P_FALSE, P_NONE = atom("True"), atom("False"), atom("None")


# ---- conditions: frozenset of cubes (disjunction); cube = frozenset of (literal, polarity) -----------
def both(a, b):
    """Conjunction of two cubes or None when contradictory."""
    r = a | b
    for l, p in a:
        if (l, not p) in b:
            return None
    return r


def simplify(cs):
    cs = set(cs)
    changed = True
    while changed:
        changed = False
        for c in list(cs):
            if any(d < c for d in cs):
                cs.discard(c)
                changed = True
        lst = sorted(cs, key=lambda c: (len(c), sorted(c)))
        for i, c in enumerate(lst):
            for d in lst[i + 1:]:
                x = c ^ d
                if len(c) == len(d) and len(x) == 2:
                    (l1, p1), (l2, p2) = x
                    if l1 == l2:
                        cs.discard(c)
                        cs.discard(d)
                        cs.add(c & d)
                        changed = True
                        break
                elif len(c) < len(d):
                    # c ∨ d where d = c' with one literal flipped: drop the literal of d
                    fl = [(l, p) for l, p in c if (l, not p) in d]
                    if len(fl) == 1 and (c - set(fl)) <= d:
                        cs.discard(d)
                        cs.add(d - {(fl[0][0], not fl[0][1])})
                        changed = True
                        break
            if changed:
                break
    return frozenset(cs)


def conj(a, b):
    out = set()
    for x in a:
        for y in b:
            r = both(x, y)
            if r is not None:
                out.add(r)
    return simplify(out)


def disj(a, b):
    return simplify(set(a) | set(b))


def lits(cs):
    return {l for c in cs for l, _ in c}


POLYS = {}


def direction(l):
    """(non-constant part with leading coefficient one, scale, constant, kind) of an arithmetic literal."""
    d = POLYS.get(l)
    if d is None or not (l.endswith(" < 0") or l.endswith(" == 0")):
        return None
    rest = sorted(((m, c) for m, c in d if m), key=lambda t: str(t[0]))
    if not rest:
        return None
    lead = rest[-1][1]
    k = sum(c for m, c in d if not m)
    return frozenset((m, round(c / lead, 12)) for m, c in rest), lead, k, l[-4:]


def worlds(ls):
    """The joint truth assignments of the literals that arithmetic allows."""
    groups, free = {}, []
    for l in ls:
        d = direction(l)
        if d is None:
            free.append(((l,), ((True,), (False,))))
        else:
            groups.setdefault(d[0], []).append((l,) + d[1:])
    out = list(free)
    for g in groups.values():
        if len(g) == 1:
            out.append(((g[0][0],), ((True,), (False,))))
            continue
        ts = sorted({-k / s for _, s, k, _ in g})
        pts = [ts[0] - 1.0] + ts + [(x + y) / 2 for x, y in zip(ts, ts[1:])] + [ts[-1] + 1.0]
        vecs = set()
        for v in pts:
            vecs.add(tuple((s * v + k < 0) if op == " < 0" else v == -k / s for _, s, k, op in g))
        out.append((tuple(x[0] for x in g), tuple(sorted(vecs))))
    return out


def equal_cond(a, b, limit=1 << 13):
    """Same Boolean function in every arithmetically possible case?  None when there are too many."""
    ls = sorted(lits(a) | lits(b))
    ws = worlds(ls)
    n = 1
    for _, vs in ws:
        n *= len(vs)
        if n > limit:
            return None if a != b else True
    for combo in itertools.product(*[vs for _, vs in ws]):
        env = {}
        for (names, _), vals in zip(ws, combo):
            env.update(zip(names, vals))
        if any(all(env[l] == p for l, p in c) for c in a) != any(all(env[l] == p for l, p in c) for c in b):
            return False
    return True


def all_worlds(ls, limit=1 << 13):
    ws = worlds(sorted(ls))
    n = 1
    for _, vs in ws:
        n *= len(vs)
    if n > limit:
        return None
    return ws


def assignments(ws):
    for combo in itertools.product(*[vs for _, vs in ws]):
        env = {}
        for (names, _), vals in zip(ws, combo):
            env.update(zip(names, vals))
        yield env


def feasible(cond):
    """Can the condition hold?  (True when there are too many literals to tell)"""
    ws = all_worlds(lits(cond))
    if ws is None:
        return True
    return any(any(all(env[l] == p for l, p in c) for c in cond) for env in assignments(ws))


def showc(c):
    return " and ".join(l if p else "not(%s)" % l for l, p in sorted(c)) or "always"


def showx(x):
    if x is None:
        return "?"
    out = []
    for p, c in sorted(x, key=lambda t: (show(t[0]), sorted(t[1]))):
        out.append(show(p) + (" if " + showc(c) if c else ""))
    return " | ".join(out)


def scenario_len(t):
    return t.endswith("scenarios.combinations)") and t.startswith("len(") or t.endswith(".scenarios)") and t.startswith("len(")


class Gvn(CallTrace):
    """``keep``: methods of self that stay opaque; ``dims``: attribute -> index labels of its axes."""
    keep = ()
    SIMPLE = {"np.asarray", "np.array", "float", "np.float64", "list", "tuple", "np.ascontiguousarray", "np.asfarray", "iter"}
    ZERO = {"np.zeros", "np.zeros_like"}
    ONE = {"np.ones", "np.ones_like"}
    EMPTY = {"np.empty", "np.empty_like"}

    def __init__(self, prog, dims=None):
        super().__init__(prog)
        self.ndef = 0
        self.dims = dims or {}
        self.mmreg = {}
        self.litreg = POLYS
        self.labels = []
        self.rets = []
        self.notes = set()
        self.divs = []
        self.consts = set()
        self.shapes = {}
        self.exact = {}
        self.raise_pcs = []

    # -- basic terms ---------------------------------------------------------------
    def mk(self, x):
        return None if x is None else self.norm(x)

    def pure(self, *ps):
        return frozenset((p, E) for p in ps)

    def term(self, v):
        if v.x is not None:
            return v.x
        if v.k is not NOK:
            if isinstance(v.k, bool):
                return self.pure(P_TRUE if v.k else P_FALSE)
            if isinstance(v.k, (int, float)):
                return self.pure(const(v.k) if v.k == v.k else atom("nan"))
            if isinstance(v.k, str):
                return self.pure(atom(repr(v.k)))
            if v.k is None and v.t <= frozenset([("none",)]):
                return self.pure(P_NONE)
        if v.p and len(v.p) <= 4:
            return self.pure(*[atom(self.path(q)) for q in v.p])
        fs = [t[1] for t in v.t if t[0] in ("ext", "builtin", "cdecl")]
        if fs:
            n = self.fname(fs[0])
            return self.pure(const(INF) if n == "inf" else atom(n))
        for t in v.t:
            if t[0] == "cls":
                return self.pure(atom(t[1].name))
            if t[0] == "enum_member":
                return self.pure(self.enum_const("%s.%s" % (t[1], t[2])))
        return None

    def enum_const(self, a):
        self.consts.add(a)
        return atom(a)

    def event(self, kind, name, recv, args, kw, node, st, val=None):
        super().event(kind, name, recv, args, kw, node, st, val)
        self.evs[-1].cond = self.pcof(st)
        self.evs[-1].idx = (self.term(recv) if recv is not None else None, [self.operand(a, st) for a in args],
                            {k: self.operand(v, st) for k, v in kw.items()})

    def on_raise(self, node, st):
        self.raise_pcs.append((self.pcof(st), self.loc(node), len(self.stack), node))

    def path(self, q):
        if "scenarios.combinations" in q:
            for a in ("self._model", "self.model", "arg:model", "self"):
                q = q.replace(a + ".scenarios.combinations", "S")
        return q

    def ex_Dict(self, e, st):
        v = super().ex_Dict(e, st)
        if not e.keys:
            return v.with_(x=self.pure(atom("{}")))
        if not all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            return v
        mark = len(self.evs)
        vs = [self.term(self.ev(x, st)) for x in e.values]
        del self.evs[mark:]
        return v.with_(x=self.display({k.value: x for k, x in zip(e.keys, vs)}))

    def display(self, items):
        if any(x is None for x in items.values()):
            return None
        return self.pure(atom(short("{%s}" % ", ".join("%r: %s" % (k, showx(items[k])) for k in sorted(items)))))

    def one(self, v):
        t = self.term(v)
        if t is not None and len(t) == 1:
            (p, c), = t
            if not c:
                return p
        return None

    def txt(self, v):
        return showx(self.term(v))

    def norm(self, x):
        """Merge equal normal forms, recognise minimum / maximum selections."""
        by = {}
        for p, c in x:
            by.setdefault(p, set()).add(c)
        for c in list(by.get(P_NONE, ())):
            # nothing, where a value of the same choice is nothing: that value
            for l, b in c:
                q = atom(l[:-8]) if b and l.endswith(" is None") else None
                if q is not None and q in by:
                    by[P_NONE].discard(c)
                    by[q].add(c)
                    break
        by = {p: cs for p, cs in by.items() if cs}
        if len(by) == 1 and len(x) > 1:
            # the same whichever way it was reached
            return frozenset((p, E) for p in by)
        changed = True
        rounds = 0
        while changed and rounds < 20:
            changed = False
            rounds += 1
            by = {p: set(simplify(cs)) for p, cs in by.items()}
            items = [(p, c) for p, cs in by.items() for c in cs]
            if len(items) > CAP * 2:
                break
            for i, (a, ca) in enumerate(items):
                for b, cb in items[i + 1:]:
                    if a == b:
                        continue
                    r = self.select(a, ca, b, cb)
                    if r is not None:
                        by[a].discard(ca)
                        by[b].discard(cb)
                        by.setdefault(r[0], set()).add(r[1])
                        by = {p: cs for p, cs in by.items() if cs}
                        changed = True
                        break
                if changed:
                    break
        out = frozenset((p, c) for p, cs in by.items() for c in cs)
        return out if len(out) <= CAP else None

    def select(self, a, ca, b, cb):
        x = ca ^ cb
        if len(x) != 2:
            return None
        (l1, p1), (l2, p2) = x
        if l1 != l2 or l1 not in self.litreg or not l1.endswith("< 0"):
            return None
        d = self.litreg[l1]
        diff = add(a, b, -1.0)
        ratio = self.ratio(diff, d)
        if ratio is None:
            return None
        sel_a_when = (l1, True) in ca        # a is selected when d < 0
        smaller = (ratio > 0) == sel_a_when   # a - b < 0 when a selected
        return self.minmax("min" if smaller else "max", [a, b]), ca & cb

    def ratio(self, a, b):
        if not a or len(a) != len(b):
            return None
        da, db = dict(a), dict(b)
        if set(da) != set(db):
            return None
        r = None
        for m, c in da.items():
            if not db[m]:
                return None
            q = c / db[m]
            if r is None:
                r = q
            elif abs(q - r) > 1e-12:
                return None
        return r

    def minmax(self, name, ps):
        flat = set()
        for p in ps:
            n = self.single(p)
            reg = self.mmreg.get(n) if n else None
            if reg and reg[0] == name:
                flat |= reg[1]
            else:
                flat.add(p)
        ns = [num(p) for p in flat if num(p) is not None]
        rest = {p for p in flat if num(p) is None}
        if ns:
            best = max(ns) if name == "max" else min(ns)
            if not rest:
                return const(best)
            if best != (-INF if name == "max" else INF):
                rest.add(const(best))
        if len(rest) == 1:
            return next(iter(rest))
        t = "%s{%s}" % (name, "; ".join(sorted(show(p) for p in rest)))
        self.mmreg[t] = (name, frozenset(rest))
        return atom(t)

    def single(self, p):
        if len(p) == 1:
            (m, c), = p
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    # -- gated combination ------------------------------------------------------------
    def lift(self, f, *ts):
        if any(t is None for t in ts):
            return None
        cur = [((), E)]
        for t in ts:
            nxt = []
            for ps, c in cur:
                for p, d in t:
                    r = both(c, d)
                    if r is not None:
                        nxt.append((ps + (p,), r))
            cur = nxt
            if len(cur) > 2 * CAP:
                return None
        out = set()
        for ps, c in cur:
            q = f(*ps)
            if q is None:
                return None
            out.add((q, c))
        return self.norm(frozenset(out))

    def pcof(self, st):
        v = st.heap.get(PC)
        return v.x if v is not None else TRUE

    def setpc(self, st, cs):
        st.heap[PC] = V(x=cs, k="pc")

    def limit(self, st, cs):
        pc = conj(self.pcof(st), cs)
        if len(pc) > PCAP:
            common = frozenset.intersection(*pc)
            pc = frozenset([common])
            self.notes.add("path condition widened")
        self.setpc(st, pc)
        return bool(pc)

    def gated(self, x, pc, base):
        if x is None:
            return None
        out = set()
        for p, c in x:
            for g in pc:
                r = both(c, g - base)
                if r is not None:
                    out.add((p, r))
        return out

    def reduce_pc(self, x, pc):
        """Drop from the conditions of the alternatives what the path condition already says."""
        if x is None or len(x) < 3 or len(pc) < 2:
            return x
        ls = lits(pc)
        by = {}
        for p, c in x:
            by.setdefault(p, set()).add(frozenset(t for t in c if t[0] not in ls))
        if len(by) == 1:
            return frozenset((p, E) for p in by)
        by = {p: simplify(cs) for p, cs in by.items()}
        ps = list(by)
        for i, p in enumerate(ps):
            for q in ps[:i]:
                if conj(conj(by[p], by[q]), pc):
                    return x
        return frozenset((p, c) for p, cs in by.items() for c in cs)

    def merge_v(self, a, pa, b, pb, base):
        if a is b or a == b:
            return a
        r = V(a.t | b.t, a.p | b.p, a.d | b.d, a.k if repr(a.k) == repr(b.k) else NOK, None, a.it if a.it == b.it else None)
        x, y = self.term(a), self.term(b)
        if x is None or y is None:
            return r.with_(p=E, x=None)
        if x == y:
            return r.with_(x=x)
        gx, gy = self.gated(x, pa, base), self.gated(y, pb, base)
        z = gx | gy
        if len(z) > 2 and (len(pa) > 1 or len(pb) > 1):
            z = self.reduce_pc(z, disj(pa, pb))
        z = self.norm(frozenset(z))
        return r.with_(x=z, p=E if z is None or a.p != b.p else a.p)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        pa, pb = self.pcof(a), self.pcof(b)
        base = frozenset.intersection(*(list(pa) + list(pb))) if pa and pb else E
        env = dict(a.env)
        for n, v in b.env.items():
            env[n] = self.merge_v(env[n], pa, v, pb, base) if n in env else v
        heap = {}
        for n in set(a.heap) | set(b.heap):
            if n == PC:
                continue
            x, y = a.heap.get(n), b.heap.get(n)
            if x is None:
                x = self.initial(n, y)
            if y is None:
                y = self.initial(n, x)
            heap[n] = self.merge_v(x, pa, y, pb, base)
        gb = set(b.guards)
        r = State(env, heap, a.must & b.must, tuple(g for g in a.guards if g in gb))
        self.setpc(r, disj(pa, pb))
        return r

    def initial(self, key, other):
        return V(t=other.t - {("none",)}, p=frozenset([key]), d=frozenset([key]), x=self.pure(atom(self.path(key))))

    def join_v(self, a, b):
        r = super().join_v(a, b)
        if a is b or a == b:
            return r
        x, y = self.term(a), self.term(b)
        if x is None or y is None:
            return r.with_(x=None, p=E)
        z = self.norm(x | y)
        return r.with_(x=z, p=r.p if z is not None else E)

    def x_join(self, a, b):
        return None if a is None or b is None else self.norm(a | b)

    # -- conditions ----------------------------------------------------------------------
    def lit_cmp(self, l, r, strict=True):
        """Condition l < r (strict) as a set of cubes."""
        d = add(l, r, -1.0)
        n = num(d)
        if n is not None:
            return TRUE if n < 0 else FALSE
        n = None
        lead = abs(sorted(d, key=lambda t: str(t[0]))[-1][1])
        d = frozenset((m, c / lead) for m, c in d)
        t = "%s < 0" % show(d)
        self.litreg[t] = d
        return frozenset([frozenset([(t, True)])])

    def lit_eq(self, l, r):
        for a, b in ((l, r), (r, l)):
            if b == P_TRUE or b == P_FALSE:
                if a in (P_TRUE, P_FALSE):
                    return TRUE if a == b else FALSE
                t = self.truth_of(a)
                return t if b == P_TRUE else self.negate(t)
        d = add(l, r, -1.0)
        n = num(d)
        if n is not None:
            return TRUE if n == 0 else FALSE
        sl, sr = self.single(l), self.single(r)
        if sl and sr and self.literal(sl) and self.literal(sr):
            return FALSE
        s = sorted(d, key=lambda t: str(t[0]))
        lead = s[-1][1]
        d = frozenset((m, c / lead) for m, c in d)
        self.litreg["%s == 0" % show(d)] = d
        return frozenset([frozenset([("%s == 0" % show(d), True)])])

    def literal(self, a):
        return a[:1] in "'\"" or a in ("None", "True", "False") or a in self.consts

    def negate(self, cs):
        out = TRUE
        for c in cs:
            out = conj(out, frozenset(frozenset([(l, not p)]) for l, p in c))
        return out

    def truth_of(self, p):
        if p in (P_TRUE,):
            return TRUE
        if p in (P_FALSE, P_NONE) or not p:
            return FALSE
        if num(p) is not None:
            return TRUE
        s = self.single(p)
        if s and s[:1] in "'\"":
            return TRUE if len(s) > 2 else FALSE
        if not s or s.startswith("len(") or s.endswith("]"):
            return self.negate(self.lit_eq(p, const(0)))
        return frozenset([frozenset([(show(p), True)])])

    def cubes(self, x, test):
        """Cubes under which test(poly) holds, over the alternatives of x."""
        out = set()
        for p, c in x:
            for g in test(p):
                r = both(c, g)
                if r is not None:
                    out.add(r)
        return simplify(out)

    def split(self, e, st):
        """(condition, negation) of a test; both None when undecided."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.split(e.operand, st)
            return f, t
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = st.copy()
            acc_t, acc_f = (TRUE, FALSE) if isand else (FALSE, TRUE)
            for x in e.values:
                t, f = self.split(x, cur)
                if t is None:
                    for y in e.values[e.values.index(x) + 1:]:
                        self.split(y, cur)
                    return None, None
                if isand:
                    acc_f = disj(acc_f, conj(acc_t, f))
                    acc_t = conj(acc_t, t)
                    live = acc_t
                else:
                    acc_t = disj(acc_t, conj(acc_f, t))
                    acc_f = conj(acc_f, f)
                    live = acc_f
                if not live:
                    break
                c2 = self.assume(x, isand, cur)
                if c2 is None:
                    break
                cur = c2
            return acc_t, acc_f
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            parts = []
            left = e.left
            for op, c in zip(e.ops, e.comparators):
                parts.append(ast.Compare(left, [op], [c]))
                left = c
            return self.split(ast.BoolOp(ast.And(), parts), st)
        v = self.ev(e, st)
        x = self.term(v)
        tv = self.truth(v)
        if tv is not None and v.x is None:
            return (TRUE, FALSE) if tv else (FALSE, TRUE)
        if x is None:
            return None, None
        t = self.cubes(x, self.truth_of)
        f = self.cubes(x, lambda p: self.negate(self.truth_of(p)))
        return t, f

    def boolean(self, t, f, d=E):
        if t is None:
            return V(t=frozenset([("num", "bool")]), d=d)
        if t == TRUE:
            return V(t=frozenset([("num", "bool")]), d=d, k=True)
        if not t:
            return V(t=frozenset([("num", "bool")]), d=d, k=False)
        return V(t=frozenset([("num", "bool")]), d=d,
                 x=frozenset([(P_TRUE, c) for c in t] + [(P_FALSE, c) for c in f]))

    def compare(self, op, l, r):
        a, b = self.term(l), self.term(r)
        if isinstance(op, (ast.Is, ast.IsNot)) and r.k is None and r.t == frozenset([("none",)]):
            if a is None:
                return None, None
            t, f = set(), set()
            for p, c in a:
                if p == P_NONE:
                    t.add(c)
                elif (self.single(p) or "") in self.exact:
                    f.add(c)
                elif num(p) is not None or p in (P_TRUE, P_FALSE) or (self.single(p) or "").startswith("new:") \
                        or (self.single(p) or "").endswith((":]", "[]")) or len(p) > 1:
                    f.add(c)
                else:
                    for pol, s in ((True, t), (False, f)):
                        g = both(c, frozenset([("%s is None" % show(p), pol)]))
                        if g is not None:
                            s.add(g)
            t, f = simplify(t), simplify(f)
            return (t, f) if isinstance(op, ast.Is) else (f, t)
        if a is None or b is None:
            return None, None

        def build(fn, neg_fn):
            t, f = set(), set()
            for p, c in a:
                for q, d in b:
                    g = both(c, d)
                    if g is None:
                        continue
                    for x in fn(p, q):
                        h = both(g, x)
                        if h is not None:
                            t.add(h)
                    for x in neg_fn(p, q):
                        h = both(g, x)
                        if h is not None:
                            f.add(h)
            return simplify(t), simplify(f)
        lt = self.lit_cmp
        ng = self.negate
        if isinstance(op, ast.Lt):
            return build(lt, lambda p, q: ng(lt(p, q)))
        if isinstance(op, ast.GtE):
            return build(lambda p, q: ng(lt(p, q)), lt)
        if isinstance(op, ast.Gt):
            return build(lambda p, q: lt(q, p), lambda p, q: ng(lt(q, p)))
        if isinstance(op, ast.LtE):
            return build(lambda p, q: ng(lt(q, p)), lambda p, q: lt(q, p))
        eq = self.lit_eq
        if isinstance(op, (ast.Eq, ast.Is)):
            return build(eq, lambda p, q: ng(eq(p, q)))
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return build(lambda p, q: ng(eq(p, q)), eq)
        if isinstance(op, (ast.In, ast.NotIn)):
            tups = [t for t in r.t if t[0] == "tup"]
            if tups:
                t, f = FALSE, TRUE
                for y in tups[0][1]:
                    t1, f1 = self.compare(ast.Eq(), l, y)
                    if t1 is None:
                        return None, None
                    t, f = disj(t, conj(f, t1)), conj(f, f1)
            else:
                def isin(p, q):
                    return frozenset([frozenset([("%s in %s" % (show(p), show(q)), True)])])
                t, f = build(isin, lambda p, q: ng(isin(p, q)))
            return (t, f) if isinstance(op, ast.In) else (f, t)
        return None, None

    def ex_Compare(self, e, st):
        if len(e.ops) == 1:
            l, r = self.ev(e.left, st), self.ev(e.comparators[0], st)
            self.on_compare(l, e.ops[0], r, e, st)
            k = self.cmp_const(e.ops[0], l, r)
            if k is not NOK:
                return V(t=frozenset([("num", "bool")]), d=l.d | r.d, k=k)
            t, f = self.compare(e.ops[0], l, r)
            return self.boolean(t, f, l.d | r.d)
        t, f = self.split(e, st)
        return self.boolean(t, f)

    def ex_BoolOp(self, e, st):
        bools = all(isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)
                    for v in e.values)
        if bools:
            t, f = self.split(e, st)
            return self.boolean(t, f)
        # value of `a or b`
        cur = st.copy()
        acc, left = set(), TRUE
        r = None
        for i, x in enumerate(e.values):
            v = self.ev(x, cur)
            r = v if r is None else Interp.join_v(self, r, v)
            xv = self.term(v)
            if xv is None:
                acc = None
                break
            last = i == len(e.values) - 1
            nxt = set()
            for p, c in xv:
                tr = self.truth_of(p)
                stop = tr if isinstance(e.op, ast.Or) else self.negate(tr)
                go = self.negate(stop)
                if last:
                    stop, go = TRUE, FALSE
                for w in left:
                    for g in stop:
                        h = both(c, g)
                        h = both(h, w) if h is not None else None
                        if h is not None:
                            acc.add((p, h))
                    for g in go:
                        h = both(c, g)
                        h = both(h, w) if h is not None else None
                        if h is not None:
                            nxt.add(h)
            left = simplify(nxt)
        return r.with_(x=self.norm(frozenset(acc)) if acc is not None else None, p=E, k=NOK)

    def ex_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            t, f = self.split(e.operand, st)
            return self.boolean(f, t)
        return super().ex_UnaryOp(e, st)

    def st_If(self, s, st):
        v = None
        T, F = self.split(s.test, st)
        self.on_branch(s.test, TOP, st)
        a = b = None
        if T is None:
            txt = "??%d" % getattr(s, "lineno", 0)
            T, F = frozenset([frozenset([(txt, True)])]), frozenset([frozenset([(txt, False)])])
        if T:
            a = st.copy()
            if F:
                self.add_guard(s.test, True, a)
            a = self.assume(s.test, True, a) if self.limit(a, T) else None
        if F:
            b = st.copy()
            if T:
                self.add_guard(s.test, False, b)
            b = self.assume(s.test, False, b) if self.limit(b, F) else None
        a = self.block(s.body, a) if a is not None else None
        b = self.block(s.orelse, b) if b is not None else None
        return self.join(a, b)

    def ex_IfExp(self, e, st):
        T, F = self.split(e.test, st)
        if T is None:
            return super().ex_IfExp(e, st).with_(x=None, p=E)
        a = b = sa = sb = None
        pc0 = self.pcof(st)
        if T:
            sa = st.copy()
            sa = self.assume(e.test, True, sa) if self.limit(sa, T) else None
            a = self.ev(e.body, sa) if sa is not None else None
        if F:
            sb = st.copy()
            sb = self.assume(e.test, False, sb) if self.limit(sb, F) else None
            b = self.ev(e.orelse, sb) if sb is not None else None
        j = self.join(sa, sb)
        if j is not None:
            st.env, st.heap = j.env, j.heap
            self.setpc(st, pc0)
        if a is None:
            return b or TOP
        if b is None:
            return a
        return self.merge_v(a, T, b, F, E)

    # -- returns -----------------------------------------------------------------------
    def invoke(self, func, selfv, args, kw, node, st, entry=False):
        pc0 = self.pcof(st)
        ret, out = super().invoke(func, selfv, args, kw, node, st, entry)
        fr_returns = self.last_returns
        vs = [(v, s) for v, s in fr_returns]
        if len(vs) > 1 and not any("gen" in [t[0] for t in v.t] for v, _ in vs):
            base = frozenset.intersection(*pc0) if pc0 else E
            acc, r = set(), None
            # conditions common to the whole function exit add nothing
            tot = simplify({c for _, s in vs for c in self.pcof(s)})
            common = frozenset.intersection(*tot) if tot else base
            for v, s in vs:
                r = v if r is None else Interp.join_v(self, r, v)
                x = self.term(v)
                if x is None or acc is None:
                    acc = None
                    continue
                acc |= self.gated(x, self.pcof(s), base | common)
            same = len({v.p for v, _ in vs}) == 1
            if acc is not None:
                acc = self.reduce_pc(acc, pc0)
            acc = self.norm(frozenset(acc)) if acc is not None else None
            ret = r.with_(x=acc, p=r.p if same and acc is not None else E)
        return ret, out

    # -- operations ---------------------------------------------------------------------
    METHOD = re.compile(r"\.get_all_\w+\([^()]*\)$")

    def arr_term(self, v):
        """Term of an operand, element-wise for arrays."""
        t = self.term(v)
        if t is None:
            return None
        if v.x is None and v.p and any(x[0] == "arr" for x in v.t) and not any(q.endswith("]") for q in v.p):
            return self.pure(*[atom(self.path(q) + "[:]") for q in v.p])
        if v.x is not None and any(x[0] == "arr" for x in v.t):
            def full(p):
                s = self.single(p)
                return atom(s + "[:]") if s and s.endswith(")") and self.METHOD.search(s) else p
            return self.lift(full, t)
        return t

    def operand(self, v, st):
        if len(v.p) == 1 and v.x is None and any(x[0] == "arr" for x in v.t):
            c = st.heap.get(self.ckey(next(iter(v.p)), ":"))
            if c is not None:
                return self.term(c)
        return self.arr_term(v)

    def x_bin(self, op, l, r, node, st):
        a, b = self.operand(l, st), self.operand(r, st)
        if isinstance(op, ast.Add):
            return self.lift(add, a, b)
        if isinstance(op, ast.Sub):
            return self.lift(lambda x, y: add(x, y, -1.0), a, b)
        if isinstance(op, ast.Mult):
            return self.lift(mul, a, b)
        if isinstance(op, ast.Div):
            for v in (b or ()):
                self.divs.append(v)
            return self.lift(lambda x, y: mul(x, inv(y)) if y else None, a, b)
        if isinstance(op, ast.Pow):
            def pw(x, y):
                n = num(y)
                if n is not None and n == int(n) and 0 <= n <= 4:
                    q = const(1)
                    for _ in range(int(n)):
                        q = mul(q, x)
                    return q
                return atom(short("pow(%s, %s)" % (show(x), show(y))))
            return self.lift(pw, a, b)
        nm = type(op).__name__

        def other(x, y):
            n, m = num(x), num(y)
            if n is not None and m:
                try:
                    return const({"Mod": n % m, "FloorDiv": n // m}[nm])
                except KeyError:
                    pass
            return atom(short("%s(%s, %s)" % (nm, show(x), show(y))))
        return self.lift(other, a, b)

    def x_un(self, op, v, node, st):
        t = self.operand(v, st)
        if isinstance(op, ast.USub):
            return self.lift(neg, t)
        if isinstance(op, ast.UAdd):
            return t
        return None

    def x_attr(self, b, attr, res, node, st):
        if res.x is not None:
            return res.x
        if res.k is not NOK and not res.p:
            return self.term(res)
        if not res.p and res.t and all(t[0] in ("ext", "builtin") for t in res.t):
            return self.term(res)
        if b.x is not None and res.p and {show(p) for p, _ in b.x} != {self.path(q) for q in b.p}:
            return self.lift(lambda p: atom(short("%s.%s" % (show(p), attr))), b.x)
        if not res.p or attr == "shape":
            t = self.term(b)
            if t is not None:
                return self.lift(lambda p: atom(short("%s.%s" % (show(p), attr))), t)
        return res.x

    def getattr(self, b, attr, node, st):
        if attr == "global_id" and self.txt(b) == "S[:]":
            # combinations are numbered by their position (checked where they are made)
            return V(t=frozenset([("num", "int")]), d=b.d, x=self.pure(atom(self.label("S"))))
        return super().getattr(b, attr, node, st)

    def idx_text(self, idx):
        out = []
        for v in idx:
            s = [t for t in v.t if t[0] == "slice"]
            if s:
                out.append(":" if s[0][1] else self.slice_text(v))
            else:
                x = self.term(v)
                if x is None:
                    return None
                out.append(showx(x))
        return ",".join(out)

    def ev_index1(self, e, st):
        if isinstance(e, ast.Slice):
            v = super().ev_index1(e, st)
            if not next(iter(v.t))[1]:
                t = []
                for x in (e.lower, e.upper, e.step):
                    t.append("" if x is None else self.txt(self.ev(x, st)))
                return v.with_(k="slice:" + ":".join(t))
            return v
        return super().ev_index1(e, st)

    def slice_arg(self, v):
        s = [t for t in v.t if t[0] == "slice"]
        if not s or v.x is not None:
            return v
        t = ":" if s[0][1] else self.slice_text(v)
        return v if t == "part" or "?" in t else v.with_(x=self.pure(atom("[%s]" % t)))

    def slice_text(self, v):
        return v.k[6:] if isinstance(v.k, str) else "part"

    def ckey(self, path, idx):
        return "%s[%s]" % (self.path(path), idx)

    def x_sub(self, b, idx, res, node, st):
        it = self.idx_text(idx)
        if it is None:
            return None
        if "?" in it:
            return None
        tb = self.term(b) if not (len(b.p) == 1 and b.x is None) else self.pure(atom(self.path(next(iter(b.p)))))
        if tb is None:
            return None
        cells = self.cell_terms(tb, it, st)
        if cells is not NotImplemented:
            return cells
        full = all(any(t == ("slice", True) for t in v.t) for v in idx)

        def sub(p):
            s = self.single(p)
            if s is None:
                return p if full else None
            if full and s.endswith("]"):
                return p
            if s.endswith(".shape") and it == "0" or s.endswith(".shape") and it == "1":
                lab = self.dim_label(s[:-6], int(it))
                if lab:
                    return atom("len(%s)" % lab)
            return atom(short("%s[%s]" % (s, it)))
        return self.lift(sub, tb)

    def cell_terms(self, tb, it, st):
        """Known contents of the element, over the alternatives of the base."""
        out, hit = set(), False
        for p, c in tb:
            s = self.single(p)
            v = st.heap.get("%s[%s]" % (s, it)) if s else None
            if v is None and s and ":" not in it:
                w = st.heap.get(s + "[:]")
                if w is not None:
                    x = self.term(w)
                    if x is not None:
                        x = frozenset((q, d) for q, d in x if both(c, d) is not None)
                        w = w.with_(x=x)
                    if x is None or any("[:" in a or ":]" in a for q, _ in x for a in atoms(q)):
                        return None
                    v = w
            if v is None and s and s + "[*]" in st.heap:
                return None
            if v is None:
                if s is None:
                    return NotImplemented
                x = self.pure(atom(short("%s[%s]" % (s, it))))
                if s.endswith(".shape") or it == ":" and s.endswith("]"):
                    return NotImplemented
            else:
                hit = True
                x = self.term(v)
            if x is None:
                return None
            for q, d in x:
                g = both(c, d)
                if g is not None:
                    out.add((q, g))
        return self.norm(frozenset(out)) if hit else NotImplemented

    def dim_label(self, path, k):
        a = path.rsplit(".", 1)[-1]
        if re.match(r"get_all_\w+\(", a) and k == 0:
            return "S"
        d = self.dims.get(a)
        if d and len(d) > k:
            return d[k]
        return None

    def getitem(self, b, idx, node, st):
        r = super().getitem(b, idx, node, st)
        if r.x is not None:
            t1 = self.single(next(iter(r.x))[0]) if len(r.x) == 1 else None
            if t1 and t1.endswith("]") and len(b.p) == 1 and not next(iter(r.x))[1]:
                q = self.path(next(iter(b.p)))
                if t1.startswith(q + "["):
                    r = r.with_(p=frozenset([t1]))
                    if t1 in st.heap:
                        return st.heap[t1]
        return r

    opaque_super = frozenset()
    loop_conditions = True

    def ex_Call(self, e, st):
        """Calls handed to the parent class that a reference compares as such (``super().__init__(..)``)."""
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in ("update", "pop", "setdefault", "clear", "popitem"):
            self.undisplay(f.value, st)
        if isinstance(f, ast.Attribute) and f.attr in self.opaque_super:
            v = f.value
            sup = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super"
            exp = isinstance(v, (ast.Name, ast.Attribute)) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == "self" and self.fr.selfv is not None
            if exp and not sup:
                b = self.ev(v, st)
                exp = b.t and all(t[0] == "cls" for t in b.t)
            if sup or exp:
                args, kw = [], {}
                for a in (e.args if sup else e.args[1:]):
                    if isinstance(a, ast.Starred):
                        kw["*"] = self.ev(a.value, st)
                    else:
                        args.append(self.ev(a, st))
                for k in e.keywords:
                    v2 = self.ev(k.value, st)
                    if k.arg is not None:
                        kw[k.arg] = v2
                        continue
                    kw["**"] = v2
                    for q in v2.p:
                        pre = self.path(q) + "['"
                        for c, cv in st.heap.items():
                            if c.startswith(pre) and c.endswith("']"):
                                kw.setdefault(c[len(pre):-2], cv)
                target = None
                if sup:
                    for t in self.mk_super(v, st).t:
                        target = t[1].find_method(f.attr, after=t[2])
                else:
                    for t in b.t:
                        target = t[1].find_method(f.attr)
                if target is not None:
                    names = [a.arg for a in target.node.args.posonlyargs + target.node.args.args][1:]
                    if len(args) <= len(names):
                        for n, a in zip(names, args):
                            kw.setdefault(n, a)
                        args = []
                self.event("call", "super." + f.attr, self.fr.selfv, args, kw, e, st)
                for k in [k for k in st.heap if k.startswith("self")]:
                    st.heap.pop(k)
                return V(x=self.call_term("super." + f.attr, args, kw, st))
        return super().ex_Call(e, st)

    def ex_Yield(self, e, st):
        r = super().ex_Yield(e, st)
        v = self.fr.returns[-1][0]
        v = next((z[1] for z in v.t if z[0] == "gen"), V())
        self.event("call", "yield", None, [v], {}, e, st)
        return r

    def on_delete(self, b, idx, node, st):
        super().on_delete(b, idx, node, st)
        self.event("call", "delitem", b, list(idx if isinstance(idx, (list, tuple)) else [idx]), {}, node, st)

    def setitem(self, b, idx, v, node, st, aug=None):
        self.on_substore(b, idx, v, node, st, aug)
        x = self.operand(v, st)
        for t in getattr(node, "targets", []):
            if isinstance(t, ast.Subscript):
                self.undisplay(t.value, st)
        ix = [self.slice_arg(i) for i in (idx if isinstance(idx, (list, tuple)) else [idx])]
        self.event("call", "setitem", b, ix + [v], {}, node, st)
        if len(b.p) != 1:
            for q in b.p:
                self.smash(q, None, st)
            return
        q = next(iter(b.p))
        it = self.idx_text(idx)
        if it is None:
            self.smash(q, None, st)
            return
        key = self.ckey(q, it)
        self.smash(q, key, st)
        st.heap[key] = V(t=v.t, d=v.d, x=x, k=v.k if x is None else NOK)

    def undisplay(self, e, st):
        """A dictionary written out in full is no longer that after an item is set or removed."""
        if isinstance(e, ast.Name) and e.id in st.env:
            v = st.env[e.id]
            p = self.one(v) if v.x is not None else None
            if p is not None and show(p).startswith("{'"):
                st.env[e.id] = v.with_(x=None)

    def smash(self, q, key, st):
        pre = self.path(q) + "["
        for k in list(st.heap):
            if k.startswith(pre) and k != key:
                i, j = k[len(pre):-1], key[len(pre):-1] if key else ""
                if key and self.distinct(i, j):
                    continue
                st.heap[k] = V(t=st.heap[k].t)
        if key is None:
            st.heap[pre + "*]"] = V()

    def distinct(self, i, j):
        a, b = i.split(","), j.split(",")
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x != y and (x.lstrip("-").isdigit() or x[:1] in "'\"") and (y.lstrip("-").isdigit() or y[:1] in "'\""):
                return True
            if x != y:
                (m, c), (n, d) = offset(x), offset(y)
                if m == n and c != d:
                    return True
        return False

    # -- iteration ------------------------------------------------------------------------
    S_PATHS = ("scenarios.combinations",)
    # collections of equal length kept side by side (confirmed by reading)
    PARTNER = {"self._factors": "self._nodes", "self.factors": "self._nodes", "self._flow_weights": "self._nodes",
               "self.nodes": "self._nodes"}

    def domain(self, v):
        """Canonical name of the collection iterated, or None."""
        for t in v.t:
            if t[0] in ("enum", "zip", "rng", "gen"):
                return t[-1] if isinstance(t[-1], str) else None
        p = self.one(v)
        s = self.single(p) if p is not None else None
        if s is None:
            return self.choice(v)
        return self.dom_name(s)

    def choice(self, v):
        """Name of a collection that is one of several."""
        x = self.term(v)
        if x is None or len(x) < 2 or len(x) > 4 or not all(self.single(p) for p, _ in x):
            return None
        s = showx(x)
        return None if "?" in s or len(s) > 200 else "(%s)" % s

    def dom_name(self, s):
        if s.endswith("scenarios.combinations") or s == "S" or s.endswith(".scenarios"):
            return "S"
        m = s.rsplit(".", 1)[-1]
        d = self.dims.get(m)
        if d:
            return d[0]
        if s.startswith("len(") and s.endswith(")"):
            return self.dom_name(s[4:-1])
        return self.PARTNER.get(s, s)

    def label(self, dom):
        if dom == "S":
            return ":"
        return "*{%s}" % dom

    def elem_text(self, s, dom):
        return "%s[%s]" % (s, self.label(dom))

    def iter_elem(self, v, node, st, dom=None):
        for t in v.t:
            if t[0] in ("enum", "zip", "rng", "gen"):
                return self.elem_of_iter(t, v)
        d = dom or self.domain(v)
        el = Interp.iter_elem(self, v, node, st)
        if d is not None and self.one(v) is None and d == self.choice(v):
            def pick(p):
                s = self.single(p)
                if s.startswith("[") and s.endswith("]") and not any(ch in s[1:-1] for ch in ",[]") and s != "[]":
                    return atom(s[1:-1])
                return atom(self.elem_text(s, self.dom_name(s)))
            return el.with_(x=self.lift(pick, self.term(v)), p=E, it=None)
        if v.it is not None and v.it.x is not None:
            return v.it
        if d is not None:
            p = self.one(v)
            if p is not None and self.single(p):
                tx = self.elem_text(self.single(p), d)
                return el.with_(x=self.pure(atom(tx)), p=frozenset([tx]), it=None)
        return el.with_(x=None) if v.it is None else el

    def elem_of_iter(self, t, v):
        if t[0] == "enum":
            return V(t=frozenset([("tup", (t[1], t[2]))]), d=t[2].d)
        if t[0] == "zip":
            return V(t=frozenset([("tup", t[1])]))
        return t[1]

    def builtin(self, name, recv, args, kw, node, st):
        nm = self.fname(name)
        d = E
        for a in list(args) + list(kw.values()):
            d |= a.d
        if nm == "enumerate" and args:
            dom = self.domain(args[0])
            el = self.iter_elem(args[0], node, st)
            i = V(t=frozenset([("num", "int")]), x=self.pure(atom(self.label(dom))) if dom else None)
            start = args[1] if len(args) > 1 else kw.get("start")
            if start is not None:
                s0 = self.term(start)
                i = i.with_(x=self.lift(add, i.x, s0))
            return V(t=frozenset([("enum", i, el, dom)]), d=d)
        if nm == "zip" and args:
            doms = [self.domain(a) for a in args]
            ks = [x for x in doms if x]
            dom = None
            if ks and len(ks) == len(doms):
                dom = "S" if "S" in ks else sorted(ks)[0]
            els = tuple(self.zip_elem(a, dom, node, st) for a in args)
            return V(t=frozenset([("zip", els, dom)]), d=d)
        if nm == "range":
            dom = None
            if len(args) == 1 or len(args) == 2 and self.one(args[0]) == const(0):
                p = self.one(args[-1])
                if p is not None:
                    s = self.single(p)
                    dom = self.dom_name(s) if s else "0..%s" % show(p)
            elif len(args) >= 2:
                dom = "..".join(self.txt(a) for a in args)
                if "?" in dom:
                    dom = None
            return V(t=frozenset([("rng", V(t=frozenset([("num", "int")]), d=d,
                                            x=self.pure(atom(self.label(dom))) if dom else None), dom)]), d=d)
        if nm in ("max", "min", "np.maximum", "np.minimum", "fmax", "fmin", "np.fmax", "np.fmin") and len(args) >= 2 and not kw:
            f = "max" if "max" in nm else "min"
            return V(t=frozenset([("num", "double")]), d=d,
                     x=self.lift(lambda *ps: self.minmax(f, ps), *[self.operand(a, st) for a in args]))
        if nm in ("abs", "fabs", "np.abs", "np.fabs", "np.absolute") and args:
            return V(t=args[0].t or frozenset([("num", "double")]), d=d,
                     x=self.lift(lambda p: self.minmax("max", [p, neg(p)]), self.operand(args[0], st)))
        if nm in self.SIMPLE and args:
            a = args[0]
            if isinstance(a.k, str):
                try:
                    return V(t=frozenset([("num", "double")]), k=float(a.k), x=self.pure(const(float(a.k))))
                except ValueError:
                    return V()
            r = a
            w = self.narrowing(node)
            if w and nm.startswith("np."):
                x = self.operand(a, st)
                if x is not None:
                    return V(t=frozenset([("arr", 1, "int")]), d=d, x=self.lift(lambda p: atom(short("%s(%s)" % (w, show(p)))), x), it=None)
            if nm.startswith("np.") and any(t[0] == "tup" for t in a.t) and not (
                    a.x and all((self.single(p) or "").startswith("each(") for p, _ in a.x)):
                return V(t=frozenset([("arr", 1, "double")]), d=d, x=self.call_term(nm, args, {}, st), it=a.it)
            return r.with_(d=a.d | d)
        if nm in self.ZERO | self.ONE | self.EMPTY or nm == "np.full":
            self.ndef += 1
            q = "new:%d" % self.ndef
            r = Interp.builtin(self, name, recv, args, kw, node, st)
            if args and not nm.endswith("_like"):
                dl = []
                sh = [t for t in args[0].t if t[0] == "tup"]
                for a in (sh[0][1] if sh else (args[0],)):
                    p1 = self.one(a)
                    s1 = self.single(p1) if p1 is not None else None
                    dl.append(self.dom_name(s1) if s1 else (show(p1) if p1 is not None else None))
                self.shapes[q] = tuple(dl)
            elif args:
                for w in args[0].p:
                    if w in self.shapes:
                        self.shapes[q] = self.shapes[w]
                    elif w.rsplit(".", 1)[-1] in self.dims:
                        self.shapes[q] = tuple(self.dims[w.rsplit(".", 1)[-1]])
            c = const(0) if nm in self.ZERO else const(1) if nm in self.ONE else None
            if nm == "np.full" and len(args) > 1:
                st.heap[q + "[:]"] = V(x=self.term(args[1]))
            elif c is not None:
                st.heap[q + "[:]"] = V(x=self.pure(c))
            return r.with_(p=frozenset([q]), x=None, d=r.d)
        if nm == "len" and args:
            a = args[0]
            dom = self.domain(a)
            if dom is not None:
                return V(t=frozenset([("num", "int")]), d=d, x=self.pure(atom("len(%s)" % dom)))
            return V(t=frozenset([("num", "int")]), d=d)
        if nm in ("sum", "np.sum", "np.prod", "np.any", "np.all", "any", "all", "max", "min", "np.max", "np.min", "np.mean",
                  "np.amax", "np.amin", "np.nansum") and args:
            return self.reduce(nm, args, kw, d, st)
        if nm == "isinstance":
            a = self.one(args[0]) if args else None
            if a is None:
                x = self.term(args[0]) if args else None
                ks = "|".join(sorted(t[1].name for v in args[1:] for t in v.t if t[0] == "cls") or [self.txt(v) for v in args[1:]])
                if x is None or len(x) > 4 or "?" in ks:
                    return V(t=frozenset([("num", "bool")]), d=d)
                out = set()
                for p, c in x:
                    l = "isinstance(%s, %s)" % (show(p), ks)
                    for b, r in ((True, P_TRUE), (False, P_FALSE)):
                        g = both(c, frozenset([(l, b)]))
                        if g is not None:
                            out.add((r, g))
                return V(t=frozenset([("num", "bool")]), d=d, x=frozenset(out))
            ex = self.exact.get(self.single(a) or "")
            ks = [t[1] for v in args[1:] for t in v.t if t[0] == "cls"]
            if ex is not None and ks:
                hit = not isinstance(ex, str) and any(k in ex.mro for k in ks)
                if hit or isinstance(ex, str) or not any(ex in k.mro for k in ks):
                    return V(t=frozenset([("num", "bool")]), d=d, k=hit)
            ks = sorted(t[1].name for v in args[1:] for t in v.t if t[0] == "cls") or [self.txt(v) for v in args[1:]]
            return V(t=frozenset([("num", "bool")]), d=d, x=self.pure(atom("isinstance(%s, %s)" % (show(a), "|".join(ks)))))
        if nm in ("np.median", "np.percentile"):
            return V(t=frozenset([("num", "double")]), d=d, x=self.call_term(nm, args, kw, st))
        r = Interp.builtin(self, name, recv, args, kw, node, st)
        return r.with_(x=self.call_term(nm, args, kw, st), k=NOK)

    def zip_elem(self, a, dom, node, st):
        return self.iter_elem(a, node, st, dom)

    def reduce(self, nm, args, kw, d, st):
        f = nm.rsplit(".", 1)[-1].replace("amax", "max").replace("amin", "min")
        a = args[0]
        t = frozenset([("num", "double")])
        kws = {k: v for k, v in kw.items() if not (k == "axis" and v.k is None)}
        if kws or len(args) > 1:
            return V(t=frozenset([("arr", 1, "double")]) if "axis" in kws else t, d=d, x=self.call_term(f, args, kw, st))
        dom = self.domain(a)
        if a.it is not None and a.it.x is not None and dom is None:
            for tt in a.t:
                if tt[0] == "list" and len(tt) > 2:
                    dom = tt[2]
        if a.it is not None and a.it.x is not None and dom:
            ps = [self.single(p) or "" for p, _ in a.it.x]
            if any(y[0] == "arr" for y in a.it.t) or all(q.endswith(")") and self.METHOD.search(q) for q in ps):
                if nm != "sum":
                    return V(t=t, d=d, x=self.call_term(f + "_all", args, kw, st))
                dom = re.sub(r"(\.get_all_\w+\([^()]*\))(?!\[)", r"\1[:]", dom)
                return V(t=frozenset([("arr", 1, "double")]), d=d, x=self.closed_red(f, dom, self.arr_term(
                    a.it.with_(t=frozenset([("arr", 1, "double")])))))
            return V(t=t, d=d, x=self.closed_red(f, dom, a.it.x))
        x = self.operand(a, st)
        if x is None:
            return V(t=t, d=d)
        if a.x is None and any(y[0] == "arr" and y[1] > 1 for y in a.t):
            return V(t=t, d=d, x=self.lift(lambda p: atom(short("%s(%s)" % (f, show(p)))), x))
        if dom is not None and dom != "S" and self.single(next(iter(x))[0]) and not any("[" in b for p, _ in x for b in atoms(p)):
            return V(t=t, d=d, x=self.closed_red(f, dom, self.pure(atom("%s[%s]" % (show(next(iter(x))[0]), self.label(dom))))))
        return V(t=t, d=d, x=self.closed_red(f, "S", x))

    def close(self, dom, s):
        """Alpha-rename the bound index."""
        return s.replace(self.label(dom), "#") if dom != "S" else s

    def closed_red(self, f, dom, x):
        if x is None:
            return None
        body = showx(x)
        if "?" in body:
            return None
        return self.pure(atom(short("%s(%s; %s)" % (f, dom, self.close(dom, body)))))

    def call_term(self, name, args, kw, st):
        ts = []
        for a in args:
            x = self.operand(a, st)
            if x is None:
                return None
            ts.append(showx(x))
        for k, v in sorted(kw.items()):
            x = self.operand(v, st)
            if x is None:
                return None
            ts.append("%s=%s" % (k, showx(x)))
        s = "%s(%s)" % (name, ", ".join(ts))
        if "?" in s:
            return None
        return self.pure(atom(short(s)))

    def narrowing(self, node):
        """The conversion that the dtype of an array construction makes, when it loses information."""
        if not isinstance(node, ast.Call):
            return None
        t = next((k.value for k in node.keywords if k.arg == "dtype"), node.args[1] if len(node.args) == 2 else None)
        t = ast.unparse(t).strip("'\"").rpartition(".")[2] if t is not None else ""
        return "as_int" if re.match(r"u?int(\d+|c|p|_)?$|i[248]$|long$", t) else "as_float32" if t in ("float32", "f4", "single", "float16") else \
            "as_bool" if t in ("bool", "bool_", "bool8") else None

    def fname(self, name):
        for a, b in (("numpy.", "np."), ("np.np.", "np."), ("libc.math.", ""), ("math.", ""), ("builtins.", "")):
            if name.startswith(a):
                name = b + name[len(a):]
        return {"np.nan": "nan", "np.NaN": "nan", "np.inf": "inf", "np.Inf": "inf", "NAN": "nan", "INFINITY": "inf",
                "np.isnan": "isnan", "np.exp": "exp", "np.sqrt": "sqrt", "np.log": "log"}.get(name, name)

    PUREM = {"copy": None, "sum": "sum", "max": "max", "min": "min", "mean": "mean", "prod": "prod", "any": "any", "all": "all"}

    def opaque(self, name, recv, args, kw, node, st, func=None):
        r = Interp.opaque(self, name, recv, args, kw, node, st, func)
        if name == "copy" and recv is not None and not args:
            return recv
        if recv is not None and name in self.PUREM and any(t[0] == "arr" for t in recv.t):
            return self.reduce(name, [recv] + list(args), kw, r.d, st)
        if name == "astype" and recv is not None and isinstance(node, ast.Call) and len(node.args) == 1:
            w = self.narrowing(ast.Call(node.func, [node.func, node.args[0]], []))
            t = self.operand(recv, st)
            if w and t is not None:
                return V(t=frozenset([("arr", 1, "int")]), d=r.d, x=self.lift(lambda p: atom(short("%s(%s)" % (w, show(p)))), t), it=None)
        x = self.call_term(name, args, kw, st)
        f = node.func if isinstance(node, ast.Call) else None
        if recv is None and func is None and isinstance(f, ast.Name) and f.id == name and name in st.env:
            # a value that is called: known by what it is, not by the variable that holds it
            t = self.term(st.env[name])
            if t is not None and not any(q.startswith("glob:") for q in st.env[name].p):
                sfx = show(next(iter(x))[0])[len(name):] if x is not None else "()"
                x = self.lift(lambda p: atom(short("call(%s)%s" % (show(p), sfx))), t) if x is not None else None
            elif t is None and not st.env[name].p:
                x = None
        if recv is not None and x is not None:
            t = self.term(recv)
            if t is None:
                x = None
            else:
                sfx = show(next(iter(x))[0])
                x = self.lift(lambda p: atom(short("%s.%s" % (show(p), sfx))), t)
        r = r.with_(x=x, p=E)
        if func is not None:
            ps = [a.arg for a in func.node.args.args if a.arg != "self"]
            for n, v in list(zip(ps, args)) + list(kw.items()):
                if n == "out" and len(v.p) == 1 and any(t[0] == "arr" for t in v.t):
                    q = next(iter(v.p))
                    m = re.match(r"get_all_\w+$", name)
                    t = self.term(recv) if recv is not None and m else None
                    self.smash(q, None, st)
                    if t is not None:
                        st.heap.pop(self.path(q) + "[*]", None)
                        st.heap[self.ckey(q, ":")] = V(x=self.lift(lambda p: atom(short("%s.%s()[:]" % (show(p), name))), t))
                        r = v
        return r

    def seq(self, vs):
        r = super().seq(vs)
        return r.with_(t=r.t | frozenset([("tup", tuple(vs))]), x=self.seq_term(vs))

    def seq_term(self, vs):
        ts = []
        for v in vs:
            x = self.term(v)
            if x is None:
                return None
            ts.append(showx(x))
        return self.pure(atom(short("[%s]" % ", ".join(ts))))

    def ex_Tuple(self, e, st):
        r = super().ex_Tuple(e, st)
        vs = [t for t in r.t if t[0] == "tup"][0][1]
        return r.with_(x=self.seq_term(vs))

    def ex_JoinedStr(self, e, st):
        return super().ex_JoinedStr(e, st).with_(x=self.pure(atom("'<message>'")))

    def ex_ListComp(self, e, st):
        save = st.heap.get(PC)
        doms = []
        if len(e.generators) == 1:
            itv = self.ev(e.generators[0].iter, st.copy())
            doms = [self.domain(itv)]
        v = self.comp(e, e.elt, st)
        if save is not None:
            st.heap[PC] = save
        else:
            st.heap.pop(PC, None)
        dom = doms[0] if doms else None
        conds = [c for g in e.generators for c in g.ifs]
        if dom is None:
            return V(t=frozenset([("list", v.t)]), d=v.d, it=v.with_(x=None, p=E))
        if conds:
            dom = dom + " if " + "; ".join(self.canon(c, st) for c in conds)
        x = self.term(v)
        return V(t=frozenset([("list", v.t, dom)]), d=v.d, it=v if x is None else v.with_(x=x, p=E), x=self.as_loop(e, st))

    def as_loop(self, e, st):
        """Value of a comprehension: the list that the equivalent loop builds."""
        n, out = "\2list", e.elt
        app = ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), "append", ast.Load()), [e.elt], []))
        body = app
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            body = ast.For(g.target, g.iter, [body], [])
        for x in ast.walk(body):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, e)
        cur = st.copy()
        cur.env[n] = V(t=frozenset([("list", E)]), x=self.pure(atom("[]")))
        fr = self.fr
        marks = [len(a) for a in (self.evs, fr.returns, self.raised, self.divs, self.raise_pcs)]
        end = self.block([body], cur)
        for a, k in zip((self.evs, fr.returns, self.raised, self.divs, self.raise_pcs), marks):
            del a[k:]
        return self.term(end.env[n]) if end is not None and n in end.env else None

    def st_Expr(self, s, st):
        r = super().st_Expr(s, st)
        c = s.value
        if r is not None and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend") \
                and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
            self.appended(c, r)
        return r

    def appended(self, c, st):
        """A list grows by an element (or by the elements of another)."""
        t = c.func.value
        if not isinstance(t, (ast.Name, ast.Attribute)):
            return
        mark = len(self.evs)
        v, a = self.ev_loc(t, st), self.ev(c.args[0], st)
        del self.evs[mark:]
        if not any(z[0] == "list" for z in v.t) and not (not v.t and v.p):
            return
        x, y = self.term(v), self.operand(a, st)

        def grow(p, q):
            l = self.single(p)
            l = l if l is not None else show(p)
            if c.func.attr == "extend":
                return atom(short("ext(%s; %s)" % (l, show(q))))
            if l.startswith("[") and l.endswith("]"):
                return atom(short("[%s]" % ", ".join(([l[1:-1]] if l != "[]" else []) + [show(q)])))
            return atom(short("cat(%s; %s)" % (l, show(q))))
        z = self.lift(grow, x, y) if x is not None and y is not None else None
        it = a if v.it is None else self.join_v(v.it, a)
        tups = [z2[1] for z2 in v.t if z2[0] == "tup"]
        ts = frozenset(z2 for z2 in v.t if z2[0] != "tup")
        if c.func.attr == "append" and len(tups) == 1:
            ts |= frozenset([("tup", tuple(tups[0]) + (a,))])
        nv = v.with_(x=z, it=it, t=ts)
        paths = [q for q in v.p if q in st.heap or q.startswith("self.")]
        if isinstance(t, ast.Attribute):
            mark = len(self.evs)
            b = self.ev(t.value, st)
            del self.evs[mark:]
            if len(b.p) == 1:
                paths = [next(iter(b.p)) + "." + t.attr]
                if paths[0] in st.heap or not v.p or v.p == frozenset(paths):
                    st.heap[paths[0]] = nv
                    return
        if isinstance(t, ast.Name) and not v.p:
            st.env[t.id] = nv
        elif len(v.p) == 1 and paths:
            st.heap[paths[0]] = nv
            if isinstance(t, ast.Name):
                st.env[t.id] = nv

    ex_SetComp = ex_ListComp
    ex_GeneratorExp = ex_ListComp

    def setattr(self, b, attr, v, node, st, aug=None):
        t = self.term(v)
        ps = b.p
        super().setattr(b, attr, v, node, st, aug)
        if len(ps) == 1:
            q = next(iter(ps)) + "." + attr
            if q in st.heap:
                st.heap[q] = st.heap[q].with_(x=t if not self.keeps_alias(v) or not v.p or len(v.p) == 1 and v.t and all(z[0] == "inst" for z in v.t) else v.x if v.x is not None else t)
                if v.p and any(z.startswith("new:") for z in v.p) and len(v.p) == 1:
                    src = next(iter(v.p))
                    if src in self.shapes:
                        self.shapes[q] = self.shapes[src]
                    for k in list(st.heap):
                        if k.startswith(src + "["):
                            st.heap[q + k[len(src):]] = st.heap[k]

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env.pop("\1" + t.id, None)
            if v.x is None and v.k is NOK and not any(x[0] == "arr" for x in v.t):
                x = self.term(v)
                if x is not None:
                    v = v.with_(x=x)
        super().assign(t, v, st, node)

    def st_Assign(self, s, st):
        r = super().st_Assign(s, st)
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop("\1" + t.id, None)
        return r

    # -- try / except ---------------------------------------------------------------------
    def st_Try(self, s, st):
        if not s.handlers:
            return super().st_Try(s, st)
        self.tried = True
        pre = st.copy()
        mark = len(self.divs)
        names = []
        for h in s.handlers:
            names.append(ast.unparse(h.type) if h.type is not None else "*")
        # the normal path
        fr = self.fr
        nret = len(fr.returns)
        body = self.block(s.body, st)
        if body is not None and s.orelse:
            body = self.block(s.orelse, body)
        outs = []
        zero = FALSE
        if names == ["ZeroDivisionError"]:
            for p, c in self.divs[mark:]:
                z = self.lit_eq(p, const(0))
                zero = disj(zero, conj(frozenset([c]), z))
        first = []
        for h, n in zip(s.handlers, names):
            hs = pre.copy()
            if h.name:
                hs.env[h.name] = V(d=frozenset(["exc"]))
            cond = zero if zero else frozenset([frozenset([("raises(%s)" % n, True)] + [("raises(%s)" % m, False) for m in first])])
            first.append(n)
            if self.limit(hs, cond):
                r = self.block(h.body, hs)
                if r is not None:
                    outs.append(r)
        ok = self.negate(zero) if zero else frozenset([frozenset(("raises(%s)" % n, False) for n in names)])
        if body is not None:
            if self.limit(body, ok):
                outs.append(body)
        if len(fr.returns) > nret and nret >= 0:
            # returns inside the try block happen when nothing was raised
            for i in range(nret, len(fr.returns)):
                v, rs = fr.returns[i]
                if not any(l.startswith("raises(") or True and l in lits(zero) for c in self.pcof(rs) for l, _ in c):
                    self.limit(rs, ok)
        res = self.joinall(outs)
        if s.finalbody and res is not None:
            res = self.block(s.finalbody, res)
        return res

    # -- loops ---------------------------------------------------------------------------
    def st_For(self, s, st):
        itv = self.ev(s.iter, st)
        self.on_loop(s, itv, st)
        dom = self.domain(itv)
        el = self.iter_elem(itv, s.iter, st)
        for t in itv.t:
            if t[0] == "tup" and 0 < len(t[1]) <= 8 and (itv.x is None or len(itv.x) == 1):
                # a literal sequence: unrolled
                cur = st
                if not s.orelse and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
                    for v in t[1]:
                        if cur is None:
                            return None
                        self.assign(s.target, v, cur, s)
                        cur = self.block(s.body, cur)
                    return cur
        save = self.loopstack
        self.loopstack = save + ((id(s), itv.p),)
        try:
            return self.fold(s, st, dom, lambda x: self.assign(s.target, el, x, s))
        finally:
            self.loopstack = save

    def st_While(self, s, st):
        r = self.counted(s, st)
        if r is not None:
            name, dom, body = r
            s2 = ast.For(ast.Name(name, ast.Store()), s.test, body, s.orelse)
            ast.copy_location(s2, s)
            el = V(t=frozenset([("num", "int")]), x=self.pure(atom(self.label(dom))))
            out = self.fold(s2, st, dom, lambda x: self.assign(s2.target, el, x, s2))
            if out is not None:
                out.env[name] = V(t=frozenset([("num", "int")]), x=self.pure(atom("len(%s)" % dom)))
            return out
        return self.fold(s, st, None, lambda x: self.while_enter(s, x))

    def while_enter(self, s, x):
        T, F = self.split(s.test, x)

    def counted(self, s, st):
        """while i < n: ...; i += 1 with i starting at zero."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and s.body):
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.Gt) or isinstance(op, ast.NotEq) and not isinstance(l, ast.Name):
            l, r = r, l
        elif not isinstance(op, (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(l, ast.Name):
            return None
        n = l.id
        last = s.body[-1]
        if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.value, ast.BinOp):
            x, y = last.value.left, last.value.right
            if isinstance(x, ast.Constant):
                x, y = y, x
            if not (isinstance(x, ast.Name) and isinstance(last.targets[0], ast.Name) and x.id == last.targets[0].id):
                return None
            last = ast.AugAssign(last.targets[0], last.value.op, y)
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == n
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        if any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            return None
        if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n for b in s.body[:-1] for x in ast.walk(b)):
            return None
        v = st.env.get(n)
        if v is None or self.one(v) != const(0):
            return None
        p = self.one(self.ev(r, st.copy()))
        if p is None:
            return None
        sg = self.single(p)
        dom = self.dom_name(sg) if sg else "0..%s" % show(p)
        return n, dom, s.body[:-1]

    def comp(self, e, elt, st):
        pc = st.heap.get(PC)
        v = Interp.comp(self, e, elt, st)
        if pc is not None:
            st.heap[PC] = pc
        return v

    def pass_(self, s, st, enter):
        fr = self.fr
        lp = {"break": [], "continue": []}
        fr.loops.append(lp)
        cur = st.copy()
        enter(cur)
        end = self.block(s.body, cur)
        fr.loops.pop()
        return ([end] if end is not None else []) + lp["continue"], lp["break"]

    nest = 0
    tried = False

    def fold(self, s, st, dom, enter):
        self.nest += 1
        try:
            return self.fold_(s, st, dom, enter)
        finally:
            self.nest -= 1

    def fold_(self, s, st, dom, enter):
        lab = self.label(dom) if dom else None
        fr = self.fr
        pc0 = self.pcof(st)
        # pass A: what does one iteration change?
        mark, nret, nraise, ndiv = len(self.evs), len(fr.returns), len(self.raised), len(self.divs)
        probe = st.copy()
        self.setpc(probe, TRUE)
        ends, brks = self.pass_(s, probe, enter)
        end = self.joinall([x.copy() for x in ends + brks])
        nretA = len(fr.returns)
        del self.evs[mark:]
        retstates = [x for _, x in fr.returns[nret:]]
        del fr.returns[nret:]
        del self.raised[nraise:]
        del self.divs[ndiv:]
        accs = {}
        if end is not None:
            for n, v in end.env.items():
                if n in st.env and not n.startswith(("\0", "\1")) and (v != st.env[n]) and self.term(v) != self.term(st.env[n]):
                    accs[("env", n)] = st.env[n]
        for src in ([end] if end is not None else []) + retstates:
            for n, v in src.heap.items():
                if n == PC:
                    continue
                if lab and n.endswith("]") and self.has_label(n, lab):
                    continue
                o = st.heap.get(n)
                if o is None:
                    if v.x == self.pure(atom(self.path(n))):
                        continue
                    accs[("heap", n)] = self.initial(n, v)
                elif o != v and self.term(o) != self.term(v):
                    accs[("heap", n)] = o
        # pass B: with the carried values symbolic
        body = st.copy()
        self.setpc(body, TRUE)
        self.ndef += 1
        names = {}
        for j, (k, v) in enumerate(sorted(accs.items(), key=lambda t: t[0])):
            a = "acc:%s@%d" % (self.accname(k, accs), self.nest)
            names[k] = a
            nv = v.with_(x=self.pure(atom(a)), p=v.p if self.is_container(v) and k[0] == "env" else E, k=NOK,
                         t=frozenset(z for z in v.t if z[0] not in ("none", "tup")))
            if k[0] == "env":
                if self.is_container(v) and v.p:
                    continue
                body.env[k[1]] = nv
            else:
                body.heap[k[1]] = nv
        test = None
        if dom is None and isinstance(s, ast.While):
            mark2 = len(self.evs)
            test = self.split(s.test, body.copy())[0]
            del self.evs[mark2:]
        ends, brks = self.pass_(s, body, enter)
        rets = fr.returns[nret:]
        if pc0 != TRUE and self.loop_conditions and not any("??" in l for c in pc0 for l, _ in c):
            for e in self.evs[mark:]:
                if getattr(e, "cond", None) is not None:
                    e.cond = conj(pc0, e.cond)
        end = self.joinall([x.copy() for x in ends])
        self.settle(end, accs, names, lab)
        out = st.copy()
        exits, carry, hit = None, None, None
        if brks or rets:
            hit = frozenset([frozenset([("??loop", True)])])
            if dom is not None and not (brks and rets):
                exits = frozenset().union(*[self.pcof(x) for x in brks + [r for _, r in rets]])
                carry = self.carried(end, accs, names, exits)
                hit = FALSE
                for w, cs in self.worlds(exits, lab):
                    if cs == TRUE:
                        t = "nonempty(%s)" % dom
                    elif cs:
                        t = self.search("any", dom, frozenset((P_TRUE, c) for c in cs), carry, accs, names)
                    else:
                        continue
                    hit = disj(hit, frozenset([w | {(t or "??loop", True)}]))
        for i in range(nret, len(fr.returns)):
            # the element the loop stopped at
            v, rs = fr.returns[i]
            pc = self.pcof(rs)
            x = self.term(v)
            if x is not None:
                v = v.with_(x=self.found(dom, x, exits, pc, carry, accs, names, lab))
            for n, w in list(rs.heap.items()):
                if n != PC and st.heap.get(n) != w:
                    y = None if lab and n.endswith("]") and self.has_label(n, lab) else self.term(w)
                    rs.heap[n] = w.with_(x=self.found(dom, y, exits, pc, carry, accs, names, lab) if y is not None else None, p=E)
            sel = TRUE
            if len(rets) > 1:
                sel = FALSE
                for w, cs in self.worlds(exits, lab) if exits else []:
                    if not cs:
                        continue
                    mine = [c for c in cs if any((c | w) >= g for g in pc)]
                    if len(mine) == len(cs):
                        sel = disj(sel, frozenset([w]))
                    elif mine:
                        t = self.search("first", dom, frozenset((P_TRUE if c in mine else P_FALSE, c) for c in cs), carry, accs, names)
                        sel = disj(sel, frozenset([w | {(t or "??loop", True)}]))
                if not exits:
                    sel = frozenset([frozenset([("??loop", True)])])
            self.setpc(rs, conj(conj(pc0, hit), sel))
            fr.returns[i] = (v, rs)
        miss = self.negate(hit) if hit is not None else None
        for k, a in names.items():
            if k[0] == "env" and end is not None and k[1] in end.env and not k[1].startswith(("\0", "\1")) and \
                    a in self.txt(end.env[k[1]]).replace("{%s}" % a, ""):
                self.event("call", "next", None, [V(x=self.pure(atom(a))), end.env[k[1]]], {}, s, st)
        after = None
        if end is None:
            # every iteration leaves
            if not brks or miss is not None:
                after = out
        else:
            for n, v in end.env.items():
                if n not in st.env:
                    out.env[n] = v.with_(x=self.last(dom, v)) if not n.startswith(("\0", "\1")) else v
            for n, v in end.heap.items():
                if n == PC:
                    continue
                if ("heap", n) not in accs:
                    if n in st.heap and st.heap[n] == v:
                        continue
                    # per-element update
                    out.heap[n] = v if not (brks or rets) else v.with_(x=None, p=E)
            for k, v in accs.items():
                e = end.env.get(k[1]) if k[0] == "env" else end.heap.get(k[1])
                if k[0] == "env" and self.is_container(v) and v.p:
                    continue
                x = self.term(e) if e is not None else None
                i0 = self.term(v)
                r = None
                if dom is None and test is not None and not brks and not rets:
                    r = i0 if x is not None and x == self.pure(atom(names[k])) else self.repeated(k, end, accs, names, test)
                elif dom is not None and x is not None and i0 is not None:
                    r = i0 if x == self.pure(atom(names[k])) else self.closed(names[k], x, i0, dom, set(names.values()))
                nv = (e if e is not None else v).with_(x=r, p=E, k=NOK)
                if k[0] == "env":
                    out.env[k[1]] = nv
                else:
                    out.heap[k[1]] = nv
            after = out
        if after is not None:
            self.setpc(after, pc0)
            if miss is not None:
                self.limit(after, miss)
            if s.orelse:
                after = self.block(s.orelse, after)
        if brks:
            stop = self.joinall([x.copy() for x in brks])
            for d, old in ((stop.env, st.env), (stop.heap, st.heap)):
                for n, w in list(d.items()):
                    if n == PC or old.get(n) == w or n.startswith(("\0", "\1")):
                        continue
                    if d is stop.heap and lab and n.endswith("]") and self.has_label(n, lab):
                        y = None
                    else:
                        y = self.term(w)
                    d[n] = w.with_(x=self.found(dom, y, exits, exits, carry, accs, names, lab) if y is not None else None, p=E, k=NOK)
            self.setpc(stop, conj(pc0, hit))
            after = self.joinall([x for x in (after, stop) if x is not None])
        return after

    def accname(self, k, accs):
        """Name of a carried value: a local variable is known by the value it starts from, not by its own name."""
        if k[0] != "env":
            return k[1]
        t = {n: re.sub(r"@\d+", "", self.txt(v)) for n, v in accs.items() if n[0] == "env"}
        if "?" in t[k] or list(t.values()).count(t[k]) > 1:
            return k[1]
        return "%010d" % zlib.crc32(t[k].encode())

    def repeated(self, k, end, accs, names, test):
        """What a loop that repeats while a test holds leaves in a carried value: the test and the values it and the test depend on,
        each with its start and its value after one more step."""
        inv = {a: n for n, a in names.items()}
        todo, seen, parts = [names[k]], [], []
        todo += [a for a in inv if any(a in l for c in test for l, _ in c)]
        while todo:
            a = todo.pop(0)
            if a in seen:
                continue
            seen.append(a)
            n = inv[a]
            e = end.env.get(n[1]) if n[0] == "env" else end.heap.get(n[1])
            x, i0 = self.term(e) if e is not None else None, self.term(accs[n])
            if x is None or i0 is None or len(seen) > 6:
                return None
            parts.append("%s: %s -> %s" % (a, showx(i0), showx(x)))
            todo += [o for o in inv if any(self.uses(p, o) or any(o in l for l, _ in c) for p, c in x)]
        t = "repeat(%s while %s; %s)" % (names[k], " or ".join(sorted(showc(c) for c in test)), "; ".join(sorted(parts)))
        return None if "??" in t else self.pure(atom(short(t)))

    def carried(self, end, accs, names, exits):
        """{symbol: (initial value, value for the next element or None when it never changes)} of the carried values."""
        out = {}
        for k, v in accs.items():
            a = names[k]
            e = None
            if end is not None:
                e = end.env.get(k[1]) if k[0] == "env" else end.heap.get(k[1])
            x = self.term(e) if e is not None else None
            out[a] = (self.term(v), None if end is None or x == self.pure(atom(a)) else x)
        return out

    def search(self, what, dom, x, carry, accs, names):
        """Text of a search through a domain: conditions and values of the first element that stops it."""
        used = [a for a in carry if any(self.uses(p, a) or any(a in l for l, _ in c) for p, c in x)]
        live = []
        for a in used:
            i0, nx = carry[a]
            if nx is not None or i0 is None:
                live.append(a)
                continue
            x = self.put(x, a, i0)
            if x is None:
                return None
        if len(live) > 1:
            return None
        head = ""
        if what == "any":
            body = " or ".join(sorted({showc(c) for _, c in x}))
        else:
            body = showx(frozenset(x))
        if live:
            a = live[0]
            i0, nx = carry[a]
            if i0 is None or nx is None or any(self.uses(p, o) or any(o in l for l, _ in c) for o in carry if o != a for p, c in nx):
                return None
            n = showx(nx).replace(a, "acc")
            head = "%s -> %s; " % (showx(i0), n)
            body = body.replace(a, "acc")
        t = "%s(%s; %s%s)" % (what, dom, self.close(dom, head), self.close(dom, body))
        return None if "?" in t else short(t)

    def put(self, x, a, i0):
        """The value with a carried symbol replaced."""
        if len(i0) != 1 or next(iter(i0))[1]:
            return None
        (p0, _), = i0
        t0 = show(p0)
        out = set()
        for p, c in x:
            if self.uses(p, a):
                p = self.replace(p, a, p0)
                if p is None:
                    return None
            if any(a in l for l, _ in c):
                if not re.match(r"^[\w.]+$", t0):
                    return None
                c = frozenset((l.replace(a, t0), b) for l, b in c)
            out.add((p, c))
        return frozenset(out)

    def found(self, dom, x, exits, pc, carry, accs, names, lab):
        """A value as it is at the element the loop stopped at."""
        if exits is None:
            return None
        for a in carry:
            if carry[a][1] is None and carry[a][0] is not None and x is not None and any(self.uses(p, a) or any(a in l for l, _ in c) for p, c in x):
                x = self.put(x, a, carry[a][0])
        if x is None:
            return None
        if not any(lab in t or "acc:" in t for p, c in x for t in list(atoms(p)) + [l for l, _ in c]):
            return x
        res = set()
        for w, cs in self.worlds(exits | frozenset(c for _, c in x), lab):
            alts = set()
            for p, c in x:
                for g in pc:
                    r = both(c, g)
                    r = both(r, w) if r is not None else None
                    if r is not None:
                        alts.add((p, r - w))
            for g in exits - pc:
                r = both(g, w)
                if r is not None and not any(r - w == c for _, c in alts):
                    alts.add((P_NONE, r - w))
            if not any(p != P_NONE for p, _ in alts):
                continue
            ps = {p for p, _ in alts}
            if len(ps) == 1 and not any(lab in t or "acc:" in t for t in atoms(next(iter(ps)))):
                res.add((next(iter(ps)), w))
                continue
            t = self.search("first", dom, self.norm(frozenset(alts)) or frozenset(alts), carry, accs, names)
            if t is None:
                return None
            res.add((atom(t), w))
        return self.norm(frozenset(res)) if res else None

    def worlds(self, cs, lab):
        """The tests a loop makes that do not depend on its element, each way, with what is left of the conditions."""
        inv = sorted({l for c in cs for l, _ in c if lab not in l and "acc:" not in l})
        if not inv or len(inv) > 3:
            return [(E, cs)]
        out = []
        for bits in itertools.product((True, False), repeat=len(inv)):
            w = frozenset(zip(inv, bits))
            rest = set()
            for c in cs:
                r = both(c, w)
                if r is not None:
                    rest.add(r - w)
            out.append((w, simplify(frozenset(rest))))
        return out

    def settle(self, end, accs, names, lab):
        """A carried value that is unchanged whenever a loop-invariant condition holds is the initial value there."""
        if end is None or lab is None:
            return
        for k, v0 in accs.items():
            a = names[k]
            i0 = self.term(v0)
            e = end.env.get(k[1]) if k[0] == "env" else end.heap.get(k[1])
            x = self.term(e) if e is not None else None
            if x is None or i0 is None or len(i0) != 1:
                continue
            (p0, c0), = i0
            if c0:
                continue
            ident = [c for p, c in x if p == atom(a)]
            if not ident or any("acc:" in l or lab in l for c in ident for l, _ in c) or all(p == atom(a) for p, c in x) or \
                    any(self.uses(p, a) for p, c in x if p != atom(a)):
                continue
            t0 = show(p0)

            def sub(y):
                out = set()
                for p, c in y:
                    if any(i <= c for i in ident):
                        if self.uses(p, a):
                            q = self.replace(p, a, p0)
                            if q is None:
                                return None
                            p = q
                        if any(a in l for l, _ in c):
                            if not re.match(r"^[\w.]+$", t0):
                                return None
                            c = frozenset((l.replace(a, t0), b) for l, b in c)
                    out.add((p, c))
                return self.norm(frozenset(out))
            for d in (end.env, end.heap):
                for n, v in list(d.items()):
                    if n != PC and v.x is not None and any(self.uses(p, a) or any(a in l for l, _ in c) for p, c in v.x):
                        d[n] = v.with_(x=sub(v.x))

    def replace(self, p, a, q):
        out = frozenset()
        for m, k in p:
            e = dict(m)
            n = e.pop(a, 0)
            if any(a in t for t in e) or n != int(n) or n < 0:
                return None
            r = frozenset([(tuple(sorted(e.items())), k)])
            for _ in range(int(n)):
                r = mul(r, q)
            out = add(out, r)
        return out

    def has_label(self, key, lab):
        i = key.index("[")
        if lab == ":":
            return any(part == ":" for part in key[i + 1:-1].split(",")) or ":" in key[i + 1:-1].split(",") or "[:]" in key[i:]
        return lab in key[i:]

    def last(self, dom, v):
        x = self.term(v)
        if x is None or dom is None:
            return None
        return self.pure(atom(short("last(%s; %s)" % (dom, self.close(dom, showx(x))))))

    def closed(self, acc, x, init, dom, allacc):
        """Value of an accumulator after the loop or None."""
        ident, kinds, body = False, set(), []
        for p, c in x:
            if any(acc in l for l, _ in c):
                return self.generic(acc, x, init, dom, allacc)
            if p == atom(acc):
                ident = True
                continue
            co = [k for m, k in p if m == ((acc, 1),)]
            rest = frozenset((m, k) for m, k in p if m != ((acc, 1),))
            if co and co[0] == 1 and not self.uses(rest, acc):
                kinds.add("sum")
                body.append((rest, c))
                continue
            if len(p) == 1:
                (m, k), = p
                e = dict(m)
                if e.get(acc) == 1 and len(m) > 1:
                    q = frozenset([(tuple(t for t in m if t[0] != acc), k)])
                    if not self.uses(q, acc):
                        kinds.add("prod")
                        body.append((q, c))
                        continue
                s = self.single(p)
                if s and s.startswith("cat(%s; " % acc) and acc not in s[6 + len(acc):]:
                    kinds.add("list")
                    body.append((atom(s[6 + len(acc):-1]), c))
                    continue
                if s and s.startswith("ext(%s; " % acc) and acc not in s[6 + len(acc):]:
                    kinds.add("lists")
                    body.append((atom(s[6 + len(acc):-1]), c))
                    continue
                reg = self.mmreg.get(s) if s else None
                if reg and atom(acc) in reg[1]:
                    rest = reg[1] - {atom(acc)}
                    if not any(self.uses(q, acc) for q in rest):
                        kinds.add(reg[0])
                        body.append((self.minmax(reg[0], rest), c))
                        continue
            return self.generic(acc, x, init, dom, allacc)
        if len(kinds) != 1:
            if not kinds and not ident:
                return init
            return self.generic(acc, x, init, dom, allacc)
        for other in allacc:
            if other != acc and any(self.uses(p, other) or any(other in l for l, _ in c) for p, c in body):
                return None
        k = kinds.pop()
        bx = showx(frozenset(body))
        if "?" in bx:
            return None
        if k in ("list", "lists"):
            r = "%s(%s; %s)" % ("each" if k == "list" else "chain", dom, self.close(dom, bx))
            return self.lift(lambda i: atom(short(r if show(i) == "[]" else "ext(%s; %s)" % (show(i), r))), init)
        r = atom(short("%s(%s; %s)" % (k, dom, self.close(dom, bx))))
        if k == "sum":
            # constant factors come out of a sum
            if len(body) == 1 and not body[0][1]:
                r = self.linear(dom, body[0][0])
            return self.lift(add, init, self.pure(r))
        if k == "prod":
            return self.lift(mul, init, self.pure(r))
        n = num(next(iter(init))[0]) if len(init) == 1 else None
        if n is not None and n == (-INF if k == "max" else INF):
            return self.pure(r)
        return self.lift(lambda i: self.minmax(k, [i, r]), init)

    def linear(self, dom, p):
        out = frozenset()
        lab = self.label(dom)
        for m, c in p:
            inside = [t for t in m if lab in t[0]]
            outside = [t for t in m if lab not in t[0]]
            if dom == "S":
                inside, outside = list(m), []
            b = show(frozenset([(tuple(inside), 1.0)]))
            a = atom(short("sum(%s; %s)" % (dom, self.close(dom, b)))) if inside else atom("len(%s)" % dom)
            out = add(out, mul(a, frozenset([(tuple(outside), c)])))
        return out

    def uses(self, p, acc):
        return any(acc in a for a in atoms(p))

    def generic(self, acc, x, init, dom, allacc):
        if any(self.uses(p, o) or any(o in l for l, _ in c) for o in allacc if o != acc for p, c in x):
            return None
        if all(not self.uses(p, acc) and not any(acc in l for l, _ in c) for p, c in x) and not any(p == atom(acc) for p, _ in x):
            return self.pure(atom(short("last(%s; %s)" % (dom, self.close(dom, showx(x))))))
        b = showx(x).replace(acc, "acc")
        if "?" in b:
            return None
        return self.pure(atom(short("fold(%s; %s; %s)" % (dom, showx(init), self.close(dom, b)))))


# ---- summaries -----------------------------------------------------------------------------------
class Summary:
    def __init__(self, cells, ret, calls, raises, gvn):
        self.cells, self.ret, self.calls, self.raises, self.gvn = cells, ret, calls, raises, gvn


def final_cells(g, st):
    out = {}
    if st is None:
        return out
    for k, v in st.heap.items():
        if k.startswith(("self.", "arg:")) and k != PC:
            out[g.path(k)] = v.x if v.x is not None else g.term(v)
    return out


def offset(t):
    """The terms of a sum and its constant."""
    parts, depth, cur = [], 0, ""
    for w in t.split(" + "):
        cur = cur + " + " + w if cur else w
        depth = sum(cur.count(b) for b in "([{") - sum(cur.count(b) for b in ")]}")
        if depth == 0:
            parts.append(cur)
            cur = ""
    if cur:
        parts.append(cur)
    k, rest = 0.0, []
    for w in parts:
        try:
            k += float(w)
        except ValueError:
            rest.append(w)
    return sorted(rest), k


def elem(g, v, st):
    """Element-wise contents of a returned value."""
    if st is not None and len(v.p) == 1:
        q = next(iter(v.p))
        ks = [k for k in st.heap if k.startswith(q + "[")]
        if len(ks) == 1:
            return g.term(st.heap[ks[0]])
        if (q + "[:]") in st.heap and len(ks) > 1:
            return None
        if q.startswith("new:"):
            return None
    if st is None:
        return g.term(v)
    x = g.operand(v, st)
    if x is None or not any(re.fullmatch(r"new:\d+", g.single(p) or "") for p, _ in x):
        return x
    out = set()
    for p, c in x:
        q = g.single(p) or ""
        if re.fullmatch(r"new:\d+", q):
            ks = [k for k in st.heap if k.startswith(q + "[")]
            y = g.term(st.heap[ks[0]]) if len(ks) == 1 else None
            if y is None:
                return None
            for p2, c2 in y:
                for c3 in conj(frozenset([c]), frozenset([c2])):
                    out.add((p2, c3))
        else:
            out.add((p, c))
    return frozenset(out) if len(out) <= CAP else None
