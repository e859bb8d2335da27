"""C05  Every time step runs its phases completely and in order."""
import ast
import itertools
import re

from ..interp import Interp, V, E
from ..program import Cls
from ..report import Check
from ..trace import CallTrace

GRAPH = re.compile(r"^self\.graph(\.nodes(\(\))?)?\[\*\]$")
COMPS = re.compile(r"^self\.(flatten_component_tree\(\)|component_tree_flat)\[\*\](\{isinstance:(\w+)\})?(\[\*\])?$")
NODES_PART = re.compile(r"NodeIterator|^self\.(graph|nodes)")
COMP_PART = re.compile(r"component|parameters|recorders")
SUBS = re.compile(r"^self\.models(\.values\(\)\[\*\]|\.items\(\)\[\*\]\[1\]|\[\*\])$")


class ModelTrace(CallTrace):
    keep = ("flatten_component_tree",)


class Order(Interp):
    """Dependency order of the flattened component tree: +1 dependencies first, -1 last."""

    def __init__(self, prog):
        super().__init__(prog)
        self.result = None

    def x_join(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        return a if a == b else ("order", 0)

    def join(self, a, b):
        r = super().join(a, b)
        if a is not None and b is not None:
            # the cached list was built by an earlier call of this function
            for s in (a, b):
                for k, v in s.heap.items():
                    r.heap.setdefault(k, v)
        return r

    def builtin(self, name, recv, args, kw, node, st):
        r = super().builtin(name, recv, args, kw, node, st)
        last = name.rsplit(".", 1)[-1]
        x = None
        if last in ("dfs_postorder_nodes", "dfs_preorder_nodes", "topological_sort", "lexicographical_topological_sort"):
            x = ("order", {"dfs_postorder_nodes": -1, "dfs_preorder_nodes": 0}.get(last, 1))
        elif args and isinstance(args[0].x, tuple) and args[0].x[0] == "order":
            x = args[0].x
            if last == "reversed":
                x = ("order", -x[1])
            elif last in ("sorted", "set", "frozenset"):
                x = ("order", 0)
        if x is not None:
            r = r.with_(x=x, it=V(x=x))
        return r

    def x_iter(self, v, node, st):
        return v.x

    def getitem(self, b, idx, node, st):
        r = super().getitem(b, idx, node, st)
        sl = node.slice if isinstance(node, ast.Subscript) else None
        if isinstance(sl, ast.Slice) and isinstance(b.x, tuple):
            step = ast.unparse(sl.step) if sl.step is not None else "1"
            whole = sl.lower is None and sl.upper is None
            x = b.x if whole and step == "1" else ("order", -b.x[1]) if whole and step == "-1" else ("order", 0)
            return r.with_(x=x, it=V(x=x))
        return r

    def on_call(self, name, fv, recv, args, kw, node, st):
        # accumulation into a list: appending keeps the order, inserting at the front turns it round
        f = node.func
        if isinstance(f, ast.Attribute) and recv is not None:
            x = None
            if name in ("append", "extend") and args and isinstance(args[-1].x, tuple):
                x = args[-1].x
            elif name in ("insert",) and len(args) == 2 and isinstance(args[1].x, tuple):
                x = ("order", -args[1].x[1]) if args[0].k == 0 else ("order", 0)
            elif name == "appendleft" and isinstance(args[0].x, tuple):
                x = ("order", -args[0].x[1])
            elif name == "reverse" and isinstance(recv.x, tuple):
                x = ("order", -recv.x[1])
            elif name == "sort" and isinstance(recv.x, tuple):
                x = ("order", 0)
            if x is not None:
                v = recv.with_(x=x, it=V(x=x))
                if isinstance(f.value, ast.Name):
                    st.env[f.value.id] = v
                for q in recv.p:
                    st.heap[q] = v
        return None

    def ex_ListComp(self, e, st):
        r = super().ex_ListComp(e, st)
        return r.with_(x=r.it.x if r.it is not None else None)

    ex_GeneratorExp = ex_ListComp

    def on_return(self, func, val, node, st):
        if len(self.stack) == 1 and val is not None and isinstance(val.x, tuple):
            if self.result is None or self.result == 1:
                self.result = val.x[1]


class C05(Check):
    id = "C05"
    technique = "abstract interpretation: ordered call-event traces of the engine, typestate of the step phases"
    explanation = ("The engine entry points (step, run, setup, reset, finish of single and coupled models) are interpreted with "
                   "helpers inlined into an ordered trace of protocol calls on nodes, components, solver and sub-models. Each "
                   "trace must be the complete phase sequence, every phase unconditional and over the whole collection (components "
                   "in dependency order), step phases inside a try whose finally performs the finishing phase, the model only "
                   "marked clean after all of setup, and setup (not reset) chosen whenever the model or its timestepper is dirty.")
    level_note = ("Decides the phase protocol of the engine for all component populations; assumes networkx's traversal orders and "
                  "that user subclasses do not replace the engine methods.")
    assumptions = ["networkx dfs_postorder_nodes/topological_sort return the documented order"]

    # -- classification -------------------------------------------------------------
    def target(self, e, fam):
        ps = e.recv or E
        if fam == "model":
            for q in ps:
                if GRAPH.match(q):
                    return "node"
                m = COMPS.match(q)
                if m:
                    return "component" if not m.group(3) else "component:" + m.group(3)
                if q == "self.solver":
                    return "solver"
                if q == "self.timestepper":
                    return "timestepper"
                if q == "self.scenarios":
                    return "scenarios"
            for q in ps:
                if NODES_PART.search(q) and "[*]" in q:
                    return "some nodes"
                if "[*]" in q and COMP_PART.search(q):
                    return "some components"
            for c in e.types:
                if c.issub(self.node):
                    return "some nodes"
                if c.issub(self.comp):
                    return "some components"
        else:
            for q in ps:
                if SUBS.match(q):
                    return "sub"
                if "self.models" in q and "[" in q:
                    return "some sub"
        return None

    def guards_ok(self, e, name, base=()):
        bad = []
        for g in e.guards:
            if g in base:
                continue
            if name == "calc_values":
                m = re.match(r"isinstance\(.*, (\w+(\.\w+)*)\)$", g[0])
                if m and g[1]:
                    k = self.prog.resolve_expr(e.func.module, ast.parse(m.group(1), mode="eval").body)
                    if isinstance(k, Cls) and self.prog.cls("parameters._parameters.Parameter").issub(k) and \
                            k.issub(self.comp):
                        continue
                if g[1] and re.match(r"hasattr\(.*, 'calc_values'\)$", g[0]):
                    continue
            bad.append(g)
        return bad

    def run(self):
        P = self.prog
        self.node = P.cls("_core.AbstractNode")
        self.comp = P.cls("_component.Component")
        self.M = P.cls("_model.Model")
        self.MM = P.cls("model.MultiModel")
        self.check_model()
        self.check_multi()
        self.check_order()
        self.floor("engine_entries", 8)
        self.floor("phase_events", 25)

    def trace(self, cls, name, fam):
        t = ModelTrace(self.prog)
        f = cls.find_method(name)
        if f is None:
            self.report("engine-entry", "%s.%s" % (cls.name, name), cls.where, "%s.%s is gone" % (cls.name, name))
            return []
        self.count("engine_entries")
        evs, st = t.collect(f, cls)
        return evs

    PH = {("node", "before"): "N", ("component", "before"): "C", ("component", "calc_values"): "P", ("solver", "solve"): "S",
          ("node", "after"): "n", ("component", "after"): "c", ("node", "finish"): "f", ("component", "finish"): "g",
          ("sub", "before"): "B", ("sub", "solve"): "S", ("sub", "after"): "A", ("sub", "finish"): "f"}
    WHAT = {"N": "preparing the nodes", "C": "preparing the components", "P": "computing parameter values", "S": "solving",
            "n": "the nodes' step end", "c": "the components' step end", "f": "finishing the nodes", "g": "finishing the components",
            "T": "taking the next time step", "B": "preparing a sub-model", "A": "a sub-model's step end"}

    def letters(self, evs, fam, entry, alphabet):
        out = []
        for e in evs:
            if e.inhandler:
                continue
            L = None
            if e.kind == "write" and e.name == "timestep":
                if fam == "model" and "self" in e.recv:
                    L = "T"
                elif fam == "multi" and any(SUBS.match(q) for q in e.recv):
                    L = "T"
            elif e.kind == "call":
                t = self.target(e, fam)
                if t and t.startswith("component:"):
                    k = t.split(":")[1]
                    t = "component" if e.name == "calc_values" and k == "Parameter" else "some components"
                if t and t.startswith("some ") and e.name in ("before", "after", "calc_values", "solve", "finish", "setup", "reset"):
                    self.report("whole-collection", "%s:%s:%s" % (entry, e.name, t[5:]), e.where,
                                "%s calls %s() on %s only, not on the whole collection in dependency order (%s)"
                                % (entry, e.name, t, ", ".join(sorted(e.recv))))
                    t = {"nodes": "node", "components": "component", "sub": "sub"}[t[5:]]
                L = self.PH.get((t, e.name))
            if L and L in alphabet:
                self.count("phase_events")
                out.append((L, e))
        return out

    def early_exits(self, evs, fam, entry):
        for e in evs:
            if e.kind in ("break", "return"):
                for lid, ps in e.loops:
                    hit = any(re.search(r"^self\.graph|flatten_component_tree|component_tree_flat|self\.models", q) for q in ps)
                    if hit and any(x.kind == "call" and (lid in [l for l, _ in x.loops]) and x.name in
                                   ("before", "after", "calc_values", "finish", "setup", "reset", "solve") for x in evs):
                        self.report("whole-collection", "%s:%s" % (entry, e.kind), e.where,
                                    "%s leaves the loop over %s early" % (entry, ", ".join(sorted(ps))))

    def sequence(self, seq, pattern, full, entry, where):
        s = "".join(k for k, _ in itertools.groupby(L for L, _ in seq))
        if re.match(pattern, s):
            return
        # name the first missing or misplaced phase
        miss = [L for L in full if L not in s]
        if miss:
            self.report("phase-missing", "%s:%s" % (entry, "".join(miss)), where,
                        "%s does not perform: %s" % (entry, "; ".join(self.WHAT[L] for L in miss)))
        else:
            self.report("phase-order", "%s:%s" % (entry, s), where,
                        "%s performs its phases in the order [%s] instead of [%s]" % (
                            entry, ", ".join(self.WHAT[L] for L in s[:9]), ", ".join(self.WHAT[L] for L in full)))

    # -- single model ------------------------------------------------------------------
    def check_model(self):
        M = self.M
        where = M.where
        # one step
        evs = self.trace(M, "step", "model")
        seq = self.letters(evs, "model", "step", "TNCPSnc")
        self.sequence(seq, r"^TNCPSnc$", "TNCPSnc", "Model.step", where)
        self.unconditional(seq, "Model.step")
        self.early_exits(evs, "model", "Model.step")
        self.timestep_args(seq, "Model.step")
        self.prepared(evs, "Model.step", need_reset=False)
        # a run
        evs = self.trace(M, "run", "model")
        seq = self.letters(evs, "model", "run", "TNCPSncfg")
        self.sequence(seq, r"^(TNCPSnc)+fg$", "TNCPSncfg", "Model.run", where)
        self.unconditional(seq, "Model.run")
        self.early_exits(evs, "model", "Model.run")
        self.prepared(evs, "Model.run", need_reset=True)
        self.finishes(seq, evs, "Model.run")
        self.check_setup()
        self.check_reset()

    def timestep_args(self, seq, entry):
        for L, e in seq:
            if L in "NPn" and e.args:
                a = e.args[0]
                if not any(q == "self.timestep" for q in a.p | a.d):
                    self.report("phase-timestep", "%s:%s" % (entry, L), e.where,
                                "%s: %s is not given the current time step (%s)" % (entry, self.WHAT[L], sorted(a.d)))

    def unconditional(self, seq, entry):
        for L, e in seq:
            bad = self.guards_ok(e, e.name)
            if bad:
                self.report("phase-conditional", "%s:%s" % (entry, L), e.where,
                            "%s: %s happens only under %s" % (entry, self.WHAT[L], " and ".join(
                                ("%s" if p else "not (%s)") % t for t, p in bad)))
            if e.handlers:
                pass

    def prepared(self, evs, entry, need_reset, fam="model"):
        """A dirty model is set up, a clean one reset, before the first phase of a step."""
        first = None
        setup, reset = [], []
        for e in evs:
            if e.kind == "call" and e.name in ("setup", "reset") and e.recv == frozenset(["self"]):
                (setup if e.name == "setup" else reset).append(e)
            if first is None and e.kind == "write" and e.name == "timestep":
                first = e
        if not setup:
            self.report("run-prepared", entry + ":setup", evs[0].where if evs else "", "%s never sets the model up" % entry)
            return
        top_reset = [e for e in reset if not self.within(e, setup, evs)]
        ok = False
        for e in setup:
            txt = " ".join(t for t, p in e.guards)
            pos = [t for t, p in e.guards if p]
            if not e.guards or (fam == "multi" and any(re.search(r"self\.dirty", t) for t in pos)) or \
                    any(re.search(r"self\.dirty\b", t) and re.search(r"timestepper\.(_)?dirty", t) and " and " not in t for t in pos):
                ok = True
        if not ok:
            self.report("run-prepared", entry + ":dirty", setup[0].where,
                        "%s sets the model up only under %s; it must do so whenever the model or its timestepper is dirty"
                        % (entry, setup[0].guards))
        if need_reset:
            if not top_reset and any(e.guards for e in setup):
                self.report("run-prepared", entry + ":reset", setup[0].where,
                            "%s starts stepping a clean model without resetting it" % entry)
            for e in top_reset:
                left = [g for g in e.guards if not (g[1] is False and "dirty" in g[0])]
                if left:
                    self.report("run-prepared", entry + ":reset-conditional", e.where,
                                "%s resets a clean model only under %s" % (entry, left))
        for e in setup + top_reset:
            if first is not None and evs.index(e) > evs.index(first):
                self.report("run-prepared", entry + ":late", e.where, "%s takes a time step before it %ss the model" % (entry, e.name))

    def within(self, e, setups, evs):
        # inlined from setup(): has the same guards as a setup call seen earlier and no negative dirty guard
        i = evs.index(e)
        return any(evs.index(s) < i and set(s.guards) <= set(e.guards) and s.guards for s in setups) or \
            any(evs.index(s) < i and not s.guards for s in setups)

    def finishes(self, seq, evs, entry):
        fin = [e for L, e in seq if L in "fg"]
        tids = None
        # what a handler of every error performs before it raises again
        clean = {}
        for e in evs:
            if e.inhandler and e.kind == "call":
                clean.setdefault((self.target(e, "model") or self.target(e, "multi"), e.name), set()).update(e.inhandler)
        for e in fin:
            k = (self.target(e, "model") or self.target(e, "multi"), e.name)
            if not e.infinal and clean.get(k):
                tids = set(clean[k]) if tids is None else tids & clean[k]
                continue
            if not e.infinal:
                self.report("run-finishes", entry + ":finally", e.where,
                            "%s: %s is skipped when a step raises (it is not in a finally block)" % (entry, self.WHAT["f"]))
                return
            tids = set(e.infinal) if tids is None else tids & set(e.infinal)
        if not fin:
            return
        for e in evs:
            if e.infinal or e.inhandler or e.kind not in ("call", "write"):
                continue
            phase = (e.kind == "call" and e.name in ("setup", "reset", "before", "solve", "after", "calc_values") and
                     (e.recv & {"self"} or self.target(e, "model") or self.target(e, "multi"))) or \
                (e.kind == "write" and e.name == "timestep")
            if phase and not (set(e.finals) & tids):
                self.report("run-finishes", "%s:%s" % (entry, e.name), e.where,
                            "%s: an error raised by %s() leaves the run without the finishing phase" % (entry, e.name))

    def check_setup(self):
        evs = self.trace(self.M, "setup", "model")
        idx = {}
        dirty = None
        for i, e in enumerate(evs):
            if e.kind == "call":
                t = self.target(e, "model")
                k = (t, e.name) if t else ("self", e.name) if e.recv == frozenset(["self"]) else None
                if k in (("node", "setup"), ("component", "setup"), ("solver", "setup"), ("timestepper", "setup"),
                         ("scenarios", "setup"), ("self", "reset"), ("some nodes", "setup"), ("some components", "setup")):
                    if k[0].startswith("some"):
                        self.report("whole-collection", "Model.setup:%s" % k[0], e.where,
                                    "Model.setup sets up %s only (%s)" % (k[0], ", ".join(sorted(e.recv))))
                        continue
                    if k not in idx:
                        self.count("phase_events")
                        idx[k] = i
                        if e.guards:
                            self.report("phase-conditional", "Model.setup:%s" % k[0], e.where,
                                        "Model.setup: %s.%s() happens only under %s" % (k[0], k[1], e.guards))
                if e.name == "flatten_component_tree" and ("component", "setup") not in idx:
                    rb = e.kw.get("rebuild") or (e.args[0] if e.args else None)
                    if rb is None or rb.k is not True:
                        self.report("rebuild", "Model.setup", e.where,
                                    "Model.setup uses the component order computed earlier instead of rebuilding it")
            elif e.kind == "write" and e.name == "dirty" and "self" in e.recv:
                if e.val is not None and e.val.k is False:
                    dirty = i if dirty is None else min(dirty, i)
        order = [("timestepper", "setup"), ("scenarios", "setup"), ("node", "setup"), ("component", "setup"),
                 ("solver", "setup"), ("self", "reset")]
        for k in order:
            if k not in idx:
                self.report("phase-missing", "Model.setup:%s" % k[0], self.M.find_method("setup").where,
                            "Model.setup never calls %s() on %s" % (k[1], k[0]))
        pre = {("node", "setup"): order[:2], ("component", "setup"): order[:3], ("solver", "setup"): order[:4],
               ("self", "reset"): order[:5]}
        for k, bs in pre.items():
            for b in bs:
                if k in idx and b in idx and idx[b] > idx[k]:
                    self.report("phase-order", "Model.setup:%s<%s" % (b[0], k[0]), evs[idx[k]].where,
                                "Model.setup calls %s() on %s before %s() on %s" % (k[1], k[0], b[1], b[0]))
        if dirty is None:
            self.report("clean-after-setup", "Model.setup", self.M.find_method("setup").where,
                        "Model.setup never marks the model clean: every run and step sets it up again")
        elif any(dirty < i for i in idx.values()):
            self.report("clean-after-setup", "Model.setup:early", evs[dirty].where,
                        "Model.setup marks the model clean before all of it is set up; when it raises, the next run works "
                        "on a half prepared model")

    def check_reset(self):
        evs = self.trace(self.M, "reset", "model")
        need = {("timestepper", "reset"): None, ("node", "reset"): None, ("component", "reset"): None, ("solver", "reset"): None}
        for i, e in enumerate(evs):
            if e.kind != "call":
                continue
            k = (self.target(e, "model"), e.name)
            if k in need and need[k] is None:
                need[k] = i
                self.count("phase_events")
        ts, nd, cp = need[("timestepper", "reset")], need[("node", "reset")], need[("component", "reset")]
        if ts is not None and nd is not None and nd < ts or nd is not None and cp is not None and cp < nd:
            self.report("phase-order", "Model.reset", self.M.find_method("reset").where,
                        "Model.reset must reset the timestepper, then the nodes, then the components")
        self.early_exits(evs, "model", "Model.reset")
        evs = self.trace(self.M, "finish", "model")
        self.early_exits(evs, "model", "Model.finish")

    # -- coupled models ---------------------------------------------------------------
    def check_multi(self):
        MM = self.MM
        evs = self.trace(MM, "run", "multi")
        seq = self.letters(evs, "multi", "MultiModel.run", "TBSAf")
        # the inner models' own trace is checked above
        self.sequence(seq, r"^(T(BSA)+)+f$", "TBSAf", "MultiModel.run", MM.where)
        self.unconditional(seq, "MultiModel.run")
        self.early_exits(evs, "multi", "MultiModel.run")
        self.prepared(evs, "MultiModel.run", True, "multi")
        self.finishes(seq, evs, "MultiModel.run")
        step = [(L, e) for L, e in seq if L in "BSA"]
        if step:
            loops = [tuple(l for l, _ in e.loops) for L, e in step]
            if len(set(loops)) > 1:
                self.report("interleave", "MultiModel.run", step[0][1].where,
                            "a sub-model is not progressed through a whole step before the next one is prepared")
        for name in ("setup", "reset"):
            evs = self.trace(MM, name, "multi")
            hit = [e for e in evs if e.kind == "call" and e.name == name and (self.target(e, "multi") or "").endswith("sub")]
            if not hit:
                self.report("phase-missing", "MultiModel.%s" % name, MM.where, "MultiModel.%s does not %s the sub-models" % (name, name))
            for e in hit:
                if e.guards or self.target(e, "multi") != "sub":
                    self.report("whole-collection", "MultiModel.%s" % name, e.where, "MultiModel.%s skips some sub-models" % name)
            self.early_exits(evs, "multi", "MultiModel.%s" % name)
        # dirty: any model, any timestepper
        pr = MM.find_prop("dirty")
        if pr is None:
            self.report("phase-missing", "MultiModel.dirty", MM.where, "MultiModel.dirty is gone")
            return
        src = ast.unparse(pr["get"].node)
        reads = {n.attr for n in ast.walk(pr["get"].node) if isinstance(n, ast.Attribute)}
        if not ("timestepper" in reads and "dirty" in reads) or re.search(r"\ball\(", src) or " and " in src:
            self.report("run-prepared", "MultiModel.dirty", pr["get"].where,
                        "MultiModel.dirty does not report every dirty model and timestepper")

    def check_order(self):
        f = self.M.find_method("flatten_component_tree")
        o = Order(self.prog)
        o.run(f, self.M)
        self.count("orders")
        if o.result != 1:
            self.report("dependency-order", "Model.flatten_component_tree", f.where,
                        "the flattened component tree does not list every component after its dependencies (%s)" %
                        {None: "not recognised as a dependency order", 0: "not a dependency order", -1: "reversed"}[o.result])
        # the links point from the dependency to the dependant
        gi = self.prog.cls("_component.GraphInterface")
        for name, op in (("add", "add_edge"), ("remove", "remove_edge")):
            m = gi.find_method(name)
            if m is None:
                continue
            for call, side in graph_calls(m.node, op):
                self.count("links")
                a = [ast.unparse(x) for x in call.args[:2]]
                # children: item -> obj, parents: obj -> item
                want = ["item", "obj"] if side == "children" else ["obj", "item"] if side == "parents" else None
                got = ["obj" if "obj" in x else "item" for x in a]
                if want is not None and got != want:
                    self.report("dependency-link", "%s:%s" % (name, side), "%s:%d" % ("pywr/_component.pyx", call.lineno),
                                "GraphInterface.%s links %s the wrong way round" % (name, side))


def graph_calls(fn, op):
    """(call, 'children'|'parents'|None) by the branch of the `is self.obj.children` test it sits in."""
    out = []

    def walk(stmts, side):
        for s in stmts:
            if isinstance(s, ast.If):
                t = ast.unparse(s.test)
                neg = t.startswith("not ") or " is not " in t
                k = "children" if ".children" in t else "parents" if ".parents" in t else None
                if k:
                    o = {"children": "parents", "parents": "children"}[k]
                    a, b = (o, k) if neg else (k, o)
                    walk(s.body, a)
                    if s.orelse:
                        walk(s.orelse, b)
                    elif s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                        side = b
                else:
                    walk(s.body, side)
                    walk(s.orelse, side)
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == op:
                    out.append((n, side))
    walk(fn.body, None)
    return out


CHECK = C05
