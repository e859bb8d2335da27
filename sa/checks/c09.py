"""C09  A failed allocation is never used."""
import ast
import re

from ..interp import V, E, NOK
from ..report import Check
from ..trace import CallTrace
from ..flow import completes, catches, try_blocks, functions, calls_in

NATIVE = {"glp_simplex": "glpk", "glp_exact": "glpk", "solve": "lpsolve", "lp_solve": "lpsolve"}
OPTIMAL = {"glpk": ("GLP_OPT", "5"), "lpsolve": ("OPTIMAL", "0")}
STATUS = {"glp_get_status", "glp_get_prim_stat"}


class SolveTrace(CallTrace):
    """Generation of the latest native solve and the facts tested about it."""
    keep_raise_guards = True

    def __init__(self, prog):
        super().__init__(prog)
        self.native = []
        self.leaves = []

    def on_return(self, func, val, node, st):
        self.leaves.append((func, self.loc(node), st.guards, self.gen(st)))

    def canon_ast(self, e, st):
        node = super().canon_ast(e, st)
        me = self

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                v = st.env.get(n.id)
                if v is not None and len(v.p) > 1 and all(q.startswith("solver:") for q in v.p):
                    kinds = {q.split("#")[0] for q in v.p}
                    if len(kinds) == 1:
                        return ast.Name("%s#%s" % (kinds.pop(), "+".join(sorted(q.split("#")[1] for q in v.p))), ast.Load())
                return n
        return R().visit(node)

    def gen(self, st):
        v = st.heap.get("\0gen")
        return "+".join(sorted(v.p)) if v is not None else None

    def builtin(self, name, recv, args, kw, node, st):
        last = name.rsplit(".", 1)[-1]
        if last in NATIVE and recv is None:
            g = ".".join(str(getattr(f.call, "lineno", 0)) for f in self.stack[1:]) + ".%d" % node.lineno
            self.native.append((last, self.loc(node), node))
            st.heap["\0gen"] = V(p=frozenset([g]))
            for k in [k for k, v in st.heap.items() if any(q.startswith("solver:") for q in v.p)]:
                del st.heap[k]
            st.guards = tuple(x for x in st.guards if "solver:" not in x[0])
            return V(p=frozenset(["solver:return#" + g]))
        if last in STATUS and recv is None:
            v = st.heap.get("\0gen")
            if v is not None:
                return V(p=frozenset("solver:status#" + q for q in v.p))
            return V(p=frozenset(["solver:status#none"]))
        return super().builtin(name, recv, args, kw, node, st)

    def event(self, *a, **k):
        super().event(*a, **k)
        st = a[6] if len(a) > 6 else k.get("st")
        self.evs[-1].cond = self.gen(st)

    def opaque(self, name, recv, args, kw, node, st, func=None):
        return super().opaque(name, recv, args, kw, node, st, func)

    def inline(self, func, recv, node, st):
        return super().inline(func, recv, node, st)


class C09(Check):
    id = "C09"
    technique = "typestate (solve -> checked -> commit) by abstract interpretation, exception-flow analysis over the call chain"
    explanation = ("Each solver's solve() is interpreted with its helpers and native wrappers inlined. Every call that hands flows to a "
                   "node (commit) or stores solution values must be dominated by tests that the status of the latest native solve is "
                   "optimal and its return code zero, on every path including the retry. The call chain from the model's run and step "
                   "to the native solve must let the error through: no handler that swallows it, no jump out of a finally, no "
                   "noexcept function; the branch taken when the library longjmps back must raise; and the checked wrappers must "
                   "reject NaN before every native call.")
    level_note = ("Decides the status protocol on all paths of all three native solvers; assumes the libraries report failure through "
                  "their documented status and return codes.")
    assumptions = ["GLPK and lp_solve report unsolved problems through the return code and status they document"]

    def run(self):
        self.solvers()
        self.chain()
        self.wrappers()

    # -- commit only after a checked solve -------------------------------------------------
    def solvers(self):
        P = self.prog
        for m in P.modules.values():
            if not m.name.startswith("pywr.solvers."):
                continue
            for c in m.classes.values():
                f = c.methods.get("solve")
                if f is None:
                    continue
                t = SolveTrace(P)
                evs, st = t.collect(f, c)
                sinks = []
                for e in evs:
                    if e.kind == "call" and e.name in ("commit", "commit_all") and e.recv is not None and \
                            "self" not in e.recv:
                        sinks.append((e, "distributes flow to the nodes"))
                if not t.native:
                    continue
                self.count("solvers")
                self.item("native_solves", "; ".join(sorted({n[1] for n in t.native})))
                lib = NATIVE[t.native[0][0]]
                for e, what in sinks:
                    self.count("uses_of_the_solution")
                    self.judge(c, lib, e.cond, e.guards, e.where, what, "")
                users = {id(e.func) for e, _ in sinks}
                for func, where, guards, g in t.leaves:
                    if id(func) in users and g is not None:
                        self.count("returns_after_a_solve")
                        self.judge(c, lib, g, guards, where, "returns normally", ":return")
        self.floor("solvers", 2)
        self.floor("uses_of_the_solution", 2)

    def judge(self, c, lib, g, guards, where, what, tag):
        if g is None:
            self.report("unchecked-solve", "%s:%s" % (c.name, "before"), where, "%s %s without a solve before it" % (c.name, what))
            return
        facts = set(guards)
        need = [("return", ("0",) if lib == "glpk" else OPTIMAL[lib])]
        if lib == "glpk":
            need.append(("status", OPTIMAL[lib]))
        for kind, vals in need:
            if not any(self.fact(kind, vals, g, txt, pol) for txt, pol in facts):
                self.report("unchecked-solve", "%s:%s%s" % (c.name, kind, tag), where,
                            "%s %s without having tested that the %s of the latest native solve (line %s) is %s"
                            % (c.name, what, {"return": "return code", "status": "status"}[kind], g, vals[0]),
                            ["tests in force: %s" % (sorted(x for x in facts if "solver:" in x[0]) or "none",)])

    def fact(self, kind, vals, g, txt, pol):
        m = re.match(r"solver:%s#([\d+.]+) == (\w+)$" % kind, txt)
        if m:
            return pol is True and m.group(1) == g and m.group(2) in vals
        m = re.match(r"(\w+) == solver:%s#([\d+.]+)$" % kind, txt)
        if m:
            return pol is True and m.group(2) == g and m.group(1) in vals
        m = re.match(r"solver:%s#([\d+.]+)$" % kind, txt)
        return bool(m) and pol is False and m.group(1) == g and "0" in vals

    # -- the error reaches the caller ----------------------------------------------------------
    CHAIN = {"run", "_run", "step", "_step", "solve", "_solve_scenario"}

    def chain(self):
        P = self.prog
        # functions from which a native solve can be reached, by name over the engine's classes
        mods = [m for n, m in P.modules.items() if n in ("pywr._model", "pywr.model", "pywr.core") or n.startswith("pywr.solvers")
                or n.startswith("pywr.optimisation")]
        fs = [f for m in mods for f in functions(m)]
        reach = set(NATIVE) - {"solve"} | {"glp_simplex", "solve"}
        names = set(reach)
        grow = True
        while grow:
            grow = False
            for f in fs:
                if f.name in names or f.name in ("__init__", "setup", "load", "reset"):
                    continue
                if any(n in names for n, _ in calls_in(f.node)):
                    names.add(f.name)
                    grow = True
        for f in fs:
            hit = [(n, c) for n, c in calls_in(f.node) if n in names]
            if not hit:
                continue
            self.count("functions_on_the_call_chain")
            if f.node.__dict__.get("cy_exc") == "noexcept":
                self.report("error-dropped", f.qual + ":noexcept", f.where,
                            "%s is declared noexcept: an error raised while solving is printed and dropped" % f.qual)
            for t in try_blocks(f.node):
                inside = [n for n, c in hit if any(c is x for s in t.body for x in ast.walk(s))]
                if not inside:
                    continue
                for h in t.handlers:
                    self.count("handlers")
                    if catches(h, ("RuntimeError", "GLPKError", "GLPKInternalError")) and completes(h.body):
                        self.report("error-dropped", "%s:except" % f.qual, "%s:%d" % (f.where.rsplit(":", 1)[0], h.lineno),
                                    "%s catches the error of %s() and carries on" % (f.qual, inside[0]))
                from ..flow import jumps
                for j in jumps(t.finalbody):
                    self.report("error-dropped", "%s:finally" % f.qual, "%s:%d" % (f.where.rsplit(":", 1)[0], j.lineno),
                                "%s leaves its finally block with %s: the error of %s() is discarded"
                                % (f.qual, type(j).__name__.lower(), inside[0]))
            # contextlib.suppress and friends
            for w in [n for n in ast.walk(f.node) if isinstance(n, ast.With)]:
                for it in w.items:
                    if "suppress" in ast.unparse(it.context_expr) and any(c is x for n, c in hit for x in ast.walk(w)):
                        self.report("error-dropped", "%s:suppress" % f.qual, "%s:%d" % (f.where.rsplit(":", 1)[0], w.lineno),
                                    "%s suppresses errors of the solve" % f.qual)
        for m in mods:
            head = open(m.path).read()[:2000]
            if re.search(r"^#\s*cython:.*legacy_implicit_noexcept\s*=\s*True", head, re.M):
                self.report("error-dropped", m.name + ":directive", m.path, "exceptions of cdef functions are dropped in this module")
        self.floor("functions_on_the_call_chain", 8)

    # -- wrappers of the native API -------------------------------------------------------------
    def wrappers(self):
        P = self.prog
        for m in P.modules.values():
            if not m.name.startswith("pywr.solvers."):
                continue
            for f in m.funcs.values():
                calls = list(calls_in(f.node))
                if any(n == "setjmp" for n, _ in calls):
                    self.count("longjmp_wrappers")
                    self.longjmp(f)
        if "pywr.solvers.cython_glpk" in P.modules:
            self.floor("longjmp_wrappers", 3)

    def longjmp(self, f):
        t = WrapTrace(self.prog)
        evs, st = t.collect(f, None)
        for w, guards in t.outs:
            if any(re.match(r"setjmp\(", g) and p is True or re.match(r"(setjmp\(.*\)) == 0$", g) and p is False
                   for g, p in guards):
                self.report("longjmp", f.qual, w, "%s returns normally when the library has jumped back with an error" % f.qual)
        for e in evs:
            if e.kind != "call" or not e.name.startswith("glp_"):
                continue
            self.count("guarded_native_calls")
            if not any(re.match(r"setjmp\(.*\)$", g) and p is False or re.match(r"setjmp\(.*\) == 0$", g) and p is True
                       for g, p in e.guards):
                self.report("longjmp", f.qual + ":" + e.name, e.where, "%s calls %s() outside the setjmp guard" % (f.qual, e.name))
            doubles = [a.arg for a in f.node.args.args if isinstance(a.annotation, ast.Constant) and a.annotation.value == "double"]
            for d in doubles:
                if not any(re.match(r"isnan\(arg:%s\)$" % d, g) and p is False for g, p in e.guards):
                    # only if the argument is passed on
                    if any("arg:" + d in a.p for a in e.args):
                        self.report("nan-passed", "%s:%s" % (f.qual, d), e.where,
                                    "%s hands %s to %s() without rejecting NaN" % (f.qual, d, e.name))


class WrapTrace(CallTrace):
    keep_raise_guards = True

    def __init__(self, prog):
        super().__init__(prog)
        self.outs = []

    def on_return(self, func, val, node, st):
        if len(self.stack) == 1:
            self.outs.append((self.loc(node), st.guards))


CHECK = C09
