"""C07  Changing the structure of a model always takes effect in the next step."""
import ast

from ..interp import Interp, State, E
from ..report import Check
from ..spec import SpecRunner
from .c05 import C05

# what the preparation of a run captures from the nodes and scenarios of a model
GRAPH_EDITS = {"add_node", "add_nodes_from", "remove_node", "remove_nodes_from", "add_edge", "add_edges_from", "remove_edge",
               "remove_edges_from", "add_weighted_edges_from", "clear", "update"}
LIFECYCLE = {"__init__", "__cinit__", "__new__", "__dealloc__", "__del__", "setup", "reset", "before", "after", "finish", "load",
             "pre_load", "_pre_load", "_load", "commit", "commit_all", "check", "finalise_load", "_finalise_load", "set_parameters"}
# read while preparing, but only to decide what a user who asks for it (``set_fixed_*_once``) wants written once, or as a label
EXEMPT = {"has_fixed_cost", "has_constant_flows", "has_constant_factors", "has_fixed_factors", "get_cost", "fully_qualified_name",
          "name", "__class__", "__name__", "get_constant_min_flow", "get_constant_max_flow", "get_factors_norm",
          # phases of a run, entered through the same names
          "setup", "reset", "before", "after", "finish", "commit", "commit_all",
          # values read anew from their storage in every step
          "_parent", "_AbstractNode__data", "_AggregatedNode__agg_factor_data"}
MUTATE = {"append", "extend", "insert", "remove", "pop", "clear", "add", "discard", "update", "sort", "reverse", "setdefault"}
CLEAN, SET = "clean", "dirty"


class DirtyTrace(Interp):
    """``clean``: no edit of this function is pending; ``dirty``: the model has been marked on the way here."""

    def __init__(self, prog, captured):
        super().__init__(prog)
        self.captured = captured
        self.edits = []

    def edit(self, what, node, st):
        self.edits.append((what, self.loc(node)))
        if SET not in st.must:
            st.must = st.must - {CLEAN}

    def ex_Attribute(self, e, st):
        r = super().ex_Attribute(e, st)
        if not r.p and e.attr in ("model", "_model", "graph", "_graph", "component_graph", "timestepper"):
            r = r.with_(p=frozenset(["?." + e.attr]))
        return r

    def marks(self, b):
        """Is this the object the runs ask (a model, or the timestepper of one)?"""
        return any(c.name in ("Model", "MultiModel", "Timestepper") for c in b.insts()) or \
            any(q.rsplit(".", 1)[-1].split(":")[-1] in ("model", "_model", "timestepper") for q in b.p)

    def is_captured(self, b, attr):
        ts = b.insts()
        return any((c2, attr) in self.captured for c in ts for c2 in c.mro)

    def on_write(self, b, attr, val, node, st, aug):
        if attr in ("dirty", "_dirty") and self.marks(b):
            if val.k is True:
                st.must = st.must | {CLEAN, SET}
            elif SET in st.must or CLEAN in st.must:
                # whatever else is written there may take the mark back
                st.must = st.must - {SET}
        elif self.is_captured(b, attr):
            self.edit("%s = ..." % attr, node, st)

    def owner(self, b):
        """(class, field) a container value was read from."""
        out = []
        for q in b.p:
            parts = q.split(".")
            if parts[0] == "self" and len(parts) == 2 and self.stack:
                out.append(parts[1].split("[")[0])
        return out

    def on_substore(self, b, idx, val, node, st, aug):
        for f in self.owner(b):
            if self.selfcls is not None and any((c2, f) in self.captured for c2 in self.selfcls.mro):
                self.edit("%s[...] = ..." % f, node, st)

    def opaque(self, name, recv, args, kw, node, st, func=None):
        if recv is not None:
            if name in GRAPH_EDITS and any(q.rsplit(".", 1)[-1] in ("graph", "_graph", "component_graph") for q in recv.p):
                self.edit("%s.%s()" % (min(recv.p), name), node, st)
            elif name in MUTATE:
                for f in self.owner(recv):
                    if self.selfcls is not None and any((c2, f) in self.captured for c2 in self.selfcls.mro):
                        self.edit("%s.%s()" % (f, name), node, st)
        return super().opaque(name, recv, args, kw, node, st, func)


class C07(Check):
    id = "C07"
    technique = "captured-state analysis: fields read while a run is prepared against the marks set by everything that writes them"
    explanation = ("The fields of nodes and scenarios that the preparation of a run captures are computed from the solvers' setup "
                   "methods, the route search and the scenario enumeration (attributes and queries are followed to the fields they "
                   "read). Every property setter or method that writes such a field, and every edit of the node or component graph, "
                   "is interpreted with its helpers: on each way to its normal end the model must have been marked as changed. A "
                   "captured field that can be assigned without a setter is reported. The mark is only cleared by the preparation.")
    level_note = ("All setters and methods of all node and scenario classes are analysed on all their normal paths; changes made "
                  "inside containers handed out by a getter are not followed.")
    assumptions = ["constructors need no mark of their own: adding the new node to the graph sets it (analysed), and scenarios are "
                   "added through ScenarioCollection.add_scenario (analysed)",
                   "options named set_fixed_*_once capture values on the user's request and are not counted"]

    def run(self):
        P = self.prog
        node, coll, scen = P.cls("_core.AbstractNode"), P.cls("_core.ScenarioCollection"), P.cls("_core.Scenario")
        names = self.names_read()
        self.captured = set()
        classes = [c for m in P.modules.values() for c in m.classes.values()]
        for c in classes:
            if node in c.mro or scen in c.mro:
                for n in names:
                    self.closure(c, n, set())
        for f in ("get_combinations", "setup"):
            m = coll.find_method(f)
            if m is not None:
                for n in self.self_reads(m):
                    self.closure(coll, n, set())
        stepper = P.cls("timestepper.Timestepper")
        for n in self.self_reads(stepper.find_method("setup")):
            self.closure(stepper, n, set())
        # what its own preparation leaves behind is a result, not an input
        made = self.self_writes(stepper.find_method("setup")) | self.self_writes(stepper.find_method("reset"))
        self.captured = {(c, f) for c, f in self.captured if c is not stepper or f not in made}
        self.captured = {(c, f) for c, f in self.captured if not f.startswith("_recorders")}
        for c, f in sorted(self.captured, key=lambda x: (x[0].qual, x[1])):
            self.item("captured", "%s.%s" % (c.name, f))
            if c.attr_vis.get(f) == "public":
                self.report("unguarded", "%s.%s" % (c.name, f), c.where, "is captured when a run is prepared, but assigning it "
                            "does not mark the model as changed")
        for c in classes:
            if not c.module.name.split(".")[0] in ("pywr", "_core", "nodes", "_model", "_component", "domains", "model", "core",
                                                   "parameters", "recorders", "timestepper", "solvers"):
                continue
            for f in list(c.methods.values()) + [x for pr in c.props.values() for k, x in pr.items() if k in ("set", "del")]:
                if f.name in LIFECYCLE and not self.graph_edit(f):
                    continue
                if f.name in ("__init__", "__cinit__") and node in c.mro:
                    continue
                self.func(f, c)
        self.cleared()
        SpecRunner(self, self.id).run()
        self.floor("captured", 8)
        self.floor("edits", 10)

    # -- what is captured --------------------------------------------------------------------------
    def names_read(self):
        P, out = self.prog, set()
        roots = []
        for m in P.modules.values():
            if "solvers" in m.name or m.name.endswith("solvers"):
                for c in m.classes.values():
                    if "setup" in c.methods:
                        roots.append(c.methods["setup"])
        model = P.cls("_model.Model")
        for n in ("find_all_routes",):
            f = model.find_method(n)
            if f is not None:
                roots.append(f)
        coll = P.cls("_core.ScenarioCollection")
        roots += [coll.methods[n] for n in ("get_combinations", "setup") if n in coll.methods]
        seen = set()
        while roots:
            f = roots.pop()
            if f in seen:
                continue
            seen.add(f)
            self.item("preparation", f.qual)
            me = f.node.args.args[0].arg if f.node.args.args and f.kind != "static" else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    if isinstance(n.value, ast.Name) and n.value.id == me:
                        g = f.cls.find_method(n.attr) if f.cls else None
                        if g is not None and g.name not in ("reset",):
                            roots.append(g)
                        continue
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    g = f.module.funcs.get(n.func.id)
                    if g is not None:
                        roots.append(g)
        self.floor("preparation", 4)
        return out - EXEMPT

    def self_reads(self, f):
        me = f.node.args.args[0].arg if f.node.args.args and f.kind not in ("static",) else None
        return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
                and isinstance(n.value, ast.Name) and n.value.id == me}

    def self_writes(self, f):
        me = f.node.args.args[0].arg
        return {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                and isinstance(n.value, ast.Name) and n.value.id == me}

    def closure(self, c, name, seen):
        if name in seen or name in EXEMPT or name in ("model", "_model", "dirty"):
            return
        seen.add(name)
        pr = c.find_prop(name)
        f = pr.get("get") if pr is not None else c.find_method(name)
        if f is not None:
            for n in self.self_reads(f):
                self.closure(c, n, seen)
            return
        for d in c.mro:
            if name in d.attr_ann or self.assigned(d, name):
                self.captured.add((d, name))
                return

    def assigned(self, c, name):
        own = list(c.methods.values()) + [x for pr in c.props.values() for x in pr.values() if x is not None]
        return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name
                   and isinstance(n.value, ast.Name) and n.value.id == "self" for f in own for n in ast.walk(f.node))

    # -- who writes it ------------------------------------------------------------------------------
    def graph_edit(self, f):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GRAPH_EDITS
                   and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in ("graph", "component_graph")
                   for n in ast.walk(f.node))

    def func(self, f, c):
        t = DirtyTrace(self.prog, self.captured)
        t.selfcls = c
        try:
            _, st = t.run(f, c, st=State(must=frozenset([CLEAN])))
        except RecursionError:
            return
        if not t.edits:
            return
        self.count("edits", len(t.edits))
        self.item("editing", f.qual)
        if f.name.startswith("_") and not f.name.startswith("__"):
            return
        if st is not None and CLEAN not in st.must:
            self.report("unmarked", f.qual.replace("pywr.", ""), f.where, "changes the structure of the model (%s) but the model is "
                        "not marked as changed on every way to its end" % ", ".join(sorted({e[0] for e in t.edits})))

    def cleared(self):
        """The mark is acted on by whatever starts a run or a step, and taken back only once everything is prepared."""
        eng = C05(self.prog, self.tier)
        eng.run()
        for f in eng.findings.values():
            if f.rule in ("run-prepared", "clean-after-setup", "rebuild") or (f.rule, f.key.split(":")[0]) == ("phase-missing", "Model.setup"):
                self.report(f.rule, f.key, f.where, f.msg, f.path)
        self.count("engine_entries", eng.counts.get("engine_entries", 0))
        P = self.prog
        for m in P.modules.values():
            for c in m.classes.values():
                for f in list(c.methods.values()) + [x for pr in c.props.values() for x in pr.values() if x is not None]:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is False:
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and t.attr in ("dirty", "_dirty"):
                                    self.item("clears", f.qual)
                                    self.clear_site(c, f, n, isinstance(t.value, ast.Name) and t.value.id == "self")

    def clear_site(self, c, f, n, own):
        """Only what the preparation of the same object runs may take its mark back."""
        model, stepper = self.prog.cls("_model.Model"), self.prog.cls("timestepper.Timestepper")
        if own and c in (model, stepper) and (f.name == "setup" or self.only_from(c, f, "setup", set())):
            return
        self.report("cleared", "%s:%s" % (c.name, f.name), "%s:%d" % (f.where.rsplit(":", 1)[0], n.lineno),
                    "takes the mark of a changed model back without having prepared it")

    def only_from(self, c, f, root, seen):
        """Is this helper only called (directly or not) from the named method of the same class?"""
        if f in seen:
            return True
        seen.add(f)
        callers = [g for g in c.methods.values() if g is not f and any(
            isinstance(n, ast.Attribute) and n.attr == f.name for n in ast.walk(g.node))]
        return bool(callers) and f.name.startswith("_") and all(g.name == root or self.only_from(c, g, root, seen) for g in callers)


CHECK = C07
