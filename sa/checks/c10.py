"""C10  Compiled code stays inside the memory it allocated."""
import ast
import re

from ..interp import V, E, NOK, Interp
from ..report import Check
from ..flow import functions, calls_in
from ..terms import Terms, T, short, atom, const, add, mul, inv, show, showt, num, neg

ALLOC = {"malloc", "calloc", "PyMem_Malloc", "PyMem_RawMalloc", "realloc"}
FREE = {"free", "PyMem_Free", "PyMem_RawFree"}
# native functions taking (count, index array, value array): first index and number of elements touched
NATIVE_USE = {
    "glp_set_mat_row": (2, (3, 4), 1), "glp_set_mat_col": (2, (3, 4), 1),
    "add_constraintex": (1, (2, 3), 0), "set_rowex": (2, (3, 4), 0), "add_columnex": (1, (2, 3), 0),
}


class Mem(Terms):
    """Symbolic sizes and indices; allocation typestate of pointers."""

    def __init__(self, prog):
        super().__init__(prog)
        self.problems = {}
        self.sizes = {}
        self.maxix = {}
        self.stats = {}
        self.tryfree = []
        self.sites = {}

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def problem(self, rule, key, node, msg):
        self.problems.setdefault((rule, key, self.loc(node)), msg)

    # identities of containers
    def ident(self, kind, e):
        return T(atom("%s@%d:%d" % (kind, e.lineno, e.col_offset)))

    def ex_ListComp(self, e, st):
        return super().ex_ListComp(e, st).with_(x=self.ident("list", e))

    ex_SetComp = ex_ListComp
    ex_GeneratorExp = ex_ListComp

    def ex_Dict(self, e, st):
        return super().ex_Dict(e, st).with_(x=self.ident("dict", e))

    def ex_List(self, e, st):
        return super().ex_List(e, st).with_(x=self.ident("list", e))

    def _phi(self, a, b):
        if a is None or b is None:
            return None
        if a == b:
            return a
        if all(num(p) is not None for p in a | b):
            return a | b
        s = sorted({show(p) for p in a | b})
        flat = set()
        for q in s:
            flat |= set(q[4:-1].split(" ; ")) if q.startswith("phi{") and q.endswith("}") and q.count("phi{") == 1 else {q}
        return T(atom(short("phi{%s}" % " ; ".join(sorted(flat)), 150)))

    def x_join(self, a, b):
        return self._phi(a, b)

    def join_v(self, a, b):
        if a is b or a == b:
            return a
        r = Interp.join_v(self, a, b)
        return r.with_(x=self._phi(self.term(a), self.term(b)))

    def length(self, v):
        t = self.one(v)
        if t is None:
            return None
        s = show(t)
        m = re.match(r"(?:sorted|list|tuple|set|enumerate|reversed)\((.*)\)$", s)
        return T(atom("len(%s)" % (m.group(1) if m else s)))

    def x_builtin(self, name, args, kw, node, st):
        if name == "len" and args:
            return self.length(args[0])
        if name == "sizeof" or name.startswith("sizeof"):
            return T(atom("sizeof"))
        if name in ("sorted", "list", "tuple", "reversed") and args:
            return self.term(args[0])
        return super().x_builtin(name, args, kw, node, st)

    def builtin(self, name, recv, args, kw, node, st):
        r = super().builtin(name, recv, args, kw, node, st)
        if name in ("sorted", "list", "tuple", "reversed") and args:
            r = r.with_(x=self.term(args[0]))
        name = name.rsplit(".", 1)[-1]
        if name in FREE and args:
            self.free(args[0], node, st)
        elif name in NATIVE_USE:
            self.native(name, args, node, st)
        elif name == "memset" and len(args) == 3 or name == "memcpy" and len(args) == 3:
            self.use_ptr(args[0], node, st)
        return r

    def opaque(self, name, recv, args, kw, node, st, func=None):
        r = super().opaque(name, recv, args, kw, node, st, func)
        if name in ("items", "keys", "values") and recv is not None:
            t = self.term(recv)
            if t is not None:
                r = r.with_(x=t)
        for a in args:
            self.use_ptr(a, node, st)
        return r

    # index bounds
    def _ix(self, bound, node):
        a = "ix(%s)" % show(bound)
        self.maxix[a] = add(bound, const(1), -1.0)
        return a

    def enum_index(self, v, node, st):
        n = self.length(v)
        if n is None:
            return V(t=frozenset([("num", "int")]))
        return V(t=frozenset([("num", "int")]), x=T(atom(self._ix(next(iter(n)), node))))

    def range_index(self, args, node, st):
        ts = [self.one(a) for a in args]
        if any(t is None for t in ts):
            return V(t=frozenset([("num", "int")]))
        lo = ts[0] if len(ts) > 1 else const(0)
        hi = ts[1] if len(ts) > 1 else ts[0]
        a = self._ix(add(hi, lo, -1.0), node)
        return V(t=frozenset([("num", "int")]), x=T(add(lo, atom(a))))

    def upper(self, p):
        """Largest value of an index polynomial (index atoms replaced by their maximum)."""
        out = frozenset()
        for m, c in p:
            term = frozenset([((), c)])
            for x, n in m:
                if x in self.maxix and n == 1 and c > 0:
                    term = mul(term, self.maxix[x])
                else:
                    q = frozenset([(((x, n),), 1.0)])
                    term = mul(term, q)
            out = add(out, term)
        return out

    def nonneg(self, p):
        for m, c in p:
            if c < 0:
                return False
            if any(not x.startswith("len(") for x, n in m):
                return False
        return True

    # pointers
    def ptrs(self, v):
        return [q for q in v.p if q.startswith("ptr:")]

    def ex_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "__cast__" and isinstance(e.args[0].value, str) and e.args[0].value.endswith("*"):
            inner = e.args[1]
            if isinstance(inner, ast.Call) and isinstance(inner.func, ast.Name) and inner.func.id in ALLOC:
                return self.alloc(e.args[0].value[:-1].strip(), inner, e, st)
        if isinstance(f, ast.Name) and f.id in ALLOC:
            return self.alloc(None, e, e, st)
        return super().ex_Call(e, st)

    def alloc(self, elem, call, e, st):
        site = "ptr:%d:%d" % (e.lineno, e.col_offset)
        self.stat("allocations")
        args = call.args
        if call.func.id == "calloc":
            size = ast.BinOp(args[0], ast.Mult(), args[1])
        else:
            size = args[-1]
        if call.func.id == "realloc":
            self.ev(args[0], st)
        szs = {self.stype(n) for n in ast.walk(size) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
               and n.func.id.startswith("sizeof")}
        v = self.ev(size, st)
        t = self.one(v)
        cnt = None
        if t is None:
            self.stat("undecided_sizes")
        else:
            cnt = frozenset()
            odd = frozenset()
            for m, c in t:
                d = dict(m)
                if d.get("sizeof") == 1:
                    del d["sizeof"]
                    cnt = add(cnt, frozenset([(tuple(sorted(d.items())), c)]))
                else:
                    odd = add(odd, frozenset([(m, c)]))
            if odd:
                self.problem("size", "%s:bytes" % self.fr.func.qual, e,
                             "allocation of %s bytes: %s of it is not multiplied by the size of an element" % (show(t), show(odd)))
            if not cnt:
                cnt = None if not odd else cnt
        if elem is not None and szs and any(s != elem for s in szs):
            self.problem("size", "%s:element" % self.fr.func.qual, e,
                         "memory for %s elements is sized with sizeof(%s)" % (elem, ", ".join(sorted(map(str, szs)))))
        cur = st.heap.get("\0" + site)
        if cur is not None and cur.k == "live":
            self.problem("leak", "%s:again" % self.fr.func.qual, e, "the buffer allocated here in an earlier pass is not released")
        self.sizes[site] = (cnt, self.loc(e), elem)
        st.heap["\0" + site] = V(k="live")
        return V(t=frozenset([("arr", 1, elem or "?")]), p=frozenset([site]), x=T(atom(site)))

    def stype(self, n):
        a = n.args[0] if n.args else None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            return a.value
        return a.id if isinstance(a, ast.Name) else ast.unparse(a) if a is not None else "?"

    def state(self, site, st):
        v = st.heap.get("\0" + site)
        return v.k if v is not None else None

    def free(self, v, node, st):
        for s in self.ptrs(v):
            k = self.state(s, st)
            self.stat("releases")
            if k == "freed":
                self.problem("free-twice", self.fr.func.qual, node, "the buffer allocated at %s is released twice" % self.sizes[s][1])
            st.heap["\0" + s] = V(k="freed")
            if self.infinal:
                self.tryfree.append((s, self.infinal))

    def use_ptr(self, v, node, st):
        for s in self.ptrs(v):
            k = self.state(s, st)
            if k != "live":
                self.problem("use-after-free", self.fr.func.qual, node,
                             "the buffer allocated at %s is used after it was released" % self.sizes[s][1])

    def on_substore(self, b, idx, val, node, st, aug):
        super().on_substore(b, idx, val, node, st, aug)
        self.access(b, idx, node, st)

    def on_subload(self, b, idx, res, node, st):
        super().on_subload(b, idx, res, node, st)
        self.access(b, idx, node, st)

    def access(self, b, idx, node, st):
        ps = self.ptrs(b)
        if not ps:
            return
        self.use_ptr(b, node, st)
        for s in ps:
            cnt = self.sizes[s][0]
            i = self.one(idx[0])
            if cnt is None or i is None:
                self.stat("undecided_accesses")
                continue
            self.stat("accesses")
            need = add(self.upper(i), const(1))
            if not self.nonneg(add(cnt, need, -1.0)):
                self.problem("bounds", "%s:store" % self.fr.func.qual, node,
                             "index up to %s in a buffer of %s elements (allocated at %s)"
                             % (show(self.upper(i)), show(cnt), self.sizes[s][1]))
            if not self.nonneg(self.lower(i)):
                self.problem("bounds", "%s:negative" % self.fr.func.qual, node, "index %s may be negative" % show(i))

    def lower(self, p):
        return frozenset((m, c) for m, c in p if not any(x in self.maxix for x, n in m))

    def native(self, name, args, node, st):
        ci, pis, first = NATIVE_USE[name]
        if len(args) <= max(pis):
            return
        n = self.one(args[ci])
        for pi in pis:
            self.use_ptr(args[pi], node, st)
            for s in self.ptrs(args[pi]):
                cnt = self.sizes[s][0]
                if cnt is None or n is None:
                    self.stat("undecided_accesses")
                    continue
                self.stat("native_reads")
                if not self.nonneg(add(cnt, add(n, const(first)), -1.0)):
                    self.problem("bounds", "%s:%s" % (self.fr.func.qual, name), node,
                                 "%s reads %s elements from index %d of a buffer of %s (allocated at %s)"
                                 % (name, show(n), first, show(cnt), self.sizes[s][1]))

    def join(self, a, b):
        r = super().join(a, b)
        if a is not None and b is not None:
            for s in (a, b):
                for k, v in s.heap.items():
                    if k.startswith("\0ptr:") and k not in r.heap:
                        r.heap[k] = v if v.k == "freed" else V(k="maybe")
            for k in r.heap:
                if k.startswith("\0ptr:") and k in a.heap and k in b.heap and a.heap[k].k != b.heap[k].k:
                    ks = {a.heap[k].k, b.heap[k].k}
                    r.heap[k] = V(k="live-or-freed" if "freed" in ks else "maybe")
        return r

    def loop(self, s, st, enter, infinite=False):
        # buffers of one pass must be released in that pass: keys leave with the loop
        return Interp.loop(self, s, st, enter, infinite)

    def on_return(self, func, val, node, st):
        if len(self.stack) == 1:
            self.live_at_exit(node, st)

    def live_at_exit(self, node, st):
        for k, v in st.heap.items():
            if k.startswith("\0ptr:") and v.k != "freed":
                self.problem("leak", self.stack[0].func.qual, node,
                             "the buffer allocated at %s is %s released on a normal way out"
                             % (self.sizes[k[1:]][1], "not" if v.k == "live" else "not always"))

    def on_call(self, name, fv, recv, args, kw, node, st):
        super().on_call(name, fv, recv, args, kw, node, st)
        for t in fv.t:
            if t[0] == "func" and self.may_raise(t[1]):
                for k, v in st.heap.items():
                    if k.startswith("\0ptr:") and v.k == "live":
                        self.sites.setdefault((k[1:], self.finals, self.loc(node)), name)
        return None

    def may_raise(self, f):
        return any(isinstance(n, ast.Raise) for n in ast.walk(f.node))


class C10(Check):
    id = "C10"
    technique = "abstract interpretation with symbolic buffer sizes and index bounds; allocation typestate"
    explanation = ("Every function that allocates native memory is interpreted with sizes and loop indices as polynomials in the "
                   "lengths of the collections involved. Each element access and each count handed to the native library must stay "
                   "below the allocated number of elements for all lengths; sizes must be whole multiples of the element type the "
                   "pointer has; every buffer is released exactly once on every way out (in a finally block when something in "
                   "between can raise) and not touched after. Native objects owned by a class are deleted in __dealloc__ only, and "
                   "not after the library environment was destroyed. Calls with effects inside assert, and module wide switches "
                   "that turn bounds checking off, are reported; typed array shapes are matched to the ranges of their indices "
                   "where bounds checking is off.")
    level_note = ("Decides all explicit allocations and all element accesses through them for every model size; indices that come out "
                  "of data (routes_cost) are matched by the index range they were built from. Memory handled inside the libraries "
                  "is assumed correct.")
    assumptions = ["malloc succeeds", "GLPK reads ind/val[1..len], lp_solve reads [0..count-1] as documented"]

    def run(self):
        self.allocs()
        self.owners()
        self.asserts()
        self.spaces()

    def mods(self):
        return [m for m in self.prog.modules.values() if m.path.endswith(".pyx")]

    def allocs(self):
        tot = {}
        for m in self.mods():
            for f in functions(m):
                if not any(n in ALLOC or n in FREE for n, _ in calls_in(f.node)):
                    continue
                self.count("allocating_functions")
                t = Mem(self.prog)
                t.collect(f, f.cls)
                for (rule, key, where), msg in t.problems.items():
                    self.report(rule, "%s@%s" % (key, self.anchor(f, where)), where, msg)
                for (site, finals, where), name in t.sites.items():
                    if not any(s == site and set(fin) & set(finals) for s, fin in t.tryfree):
                        self.report("leak", "%s:error:%s" % (f.qual, name), where,
                                    "the buffer allocated at %s is not released when %s() raises" % (t.sizes[site][1], name))
                for k, v in t.stats.items():
                    tot[k] = tot.get(k, 0) + v
        for k, v in tot.items():
            self.counts[k] = v
        self.floor("allocations", 4)
        self.floor("accesses", 4)

    def anchor(self, f, where):
        # position independent: the text of the statement
        ln = int(where.rsplit(":", 1)[1])
        for n in ast.walk(f.node):
            if isinstance(n, ast.stmt) and n.lineno == ln and not isinstance(n, (ast.For, ast.If, ast.Try, ast.While, ast.FunctionDef)):
                return re.sub(r"\s+", "", ast.unparse(n))[:60]
        return ""

    OWN = {"glp_create_prob": "glp_delete_prob", "make_lp": "delete_lp"}

    def owners(self):
        for m in self.mods():
            for c in m.classes.values():
                made, dele = {}, []
                for f in list(c.methods.values()):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) \
                                and n.value.func.id in self.OWN:
                            made.setdefault(ast.unparse(n.targets[0]), []).append((f, n))
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.OWN.values():
                            dele.append((f, n))
                if not made:
                    continue
                self.count("native_owners")
                if not any(f.name == "__dealloc__" for f, n in dele):
                    self.report("leak", c.name + ":object", c.where, "%s never deletes its native problem object" % c.name)
                for f, n in dele:
                    if f.name not in ("__dealloc__",) and not any(g is f for fs in made.values() for g, _ in fs):
                        self.report("free-twice", "%s.%s" % (c.name, f.name), "%s:%d" % (f.where.rsplit(":", 1)[0], n.lineno),
                                    "%s.%s deletes the native object that __dealloc__ deletes again" % (c.name, f.name))
                for field, ms in made.items():
                    for f, n in ms:
                        if f.name != "__cinit__" and not any(g is f for g, _ in dele):
                            self.report("leak", "%s.%s:remade" % (c.name, f.name), "%s:%d" % (f.where.rsplit(":", 1)[0], n.lineno),
                                        "%s.%s makes a new native object without deleting the old one" % (c.name, f.name))
                # after the environment was destroyed the pointer is dead
                if any(n == "glp_free_env" for f in m.funcs.values() for n, _ in calls_in(f.node)):
                    for f, n in dele:
                        t = Terms(self.prog)
                        evs, _ = t.collect(f, c)
                        for e in evs:
                            if e.kind == "call" and e.name in self.OWN.values():
                                if not any("has_glpk_errored" in g and p is False for g, p in e.guards if not g.startswith("not ")):
                                    self.report("use-after-free", "%s.%s:env" % (c.name, f.name), e.where,
                                                "%s.%s deletes the problem after the library environment was destroyed"
                                                % (c.name, f.name))
                    hook = [f for f in m.funcs.values() if any(n == "glp_free_env" for n, _ in calls_in(f.node))]
                    for f in hook:
                        if not any(isinstance(n, ast.Assign) and "has_glpk_errored" in ast.unparse(n.targets[0])
                                   for n in ast.walk(f.node)):
                            self.report("use-after-free", f.name, f.where,
                                        "%s destroys the library environment without recording it" % f.name)

    def asserts(self):
        for m in self.mods():
            for f in functions(m):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assert):
                        self.count("asserts")
                        for nm, call in calls_in(n.test):
                            sym = self.prog.resolve(m, nm) if isinstance(call.func, ast.Name) else None
                            if isinstance(sym, tuple) and sym[0] == "cdecl" and nm not in ("isnan", "isinf", "abs", "fabs"):
                                self.report("assert-effect", "%s:%s" % (f.qual, nm), "%s:%d" % (f.where.rsplit(":", 1)[0], n.lineno),
                                            "%s() is called inside an assert: it disappears when assertions are compiled out" % nm)
            with open(m.path) as fh:
                head = fh.read(4000)
            for d in re.findall(r"^#\s*cython:\s*(.*)$", head, re.M):
                if re.search(r"boundscheck\s*=\s*False", d):
                    self.report("unchecked", m.name, m.path, "bounds checking is switched off for the whole module")

    def spaces(self):
        pass


CHECK = C10
