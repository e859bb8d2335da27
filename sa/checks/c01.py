"""C01  Runs are repeatable: state that a run changes and a later step reads is re-initialised by reset()."""
import ast
import re

from ..effects import Effects, root
from ..families import component_classes, RUN, QUERY, NOT_RUN, method_names
from ..interp import State
from ..report import Check
from ..spec import SpecRunner

TS0 = re.compile(r"^arg:\w+\.index == 0$|^not arg:\w+\.index$|^self\.(_?model)\.timestepper\.current\.index == 0$"
                 r"|^self\._?model\.timestep(per)?\.(_?current\.)?index == 0$")


def is_ts0(g):
    return bool(TS0.match(g[0])) and g[1] is True


def fullwrite(field):
    return lambda muts: any(x.how in ("assign", "item:full") for x in muts[field])


# confirmed by reading; one reason each
EXCEPT = {
    ("AnnualLicense", "_prev_year"): ("a stale year only skips re-filling a licence that reset() has already re-filled "
                                      "(the correction uses prev_flow, which is zero after reset)", lambda m: True),
    ("AssertionRecorder", "count"): ("only compared with zero to notice a recorder that was never driven", lambda m: True),
    ("AnnualCountIndexThresholdRecorder", "_data_this_year"): (
        "wholly zeroed by the first step, whose year differs from the sentinel reset() stores", fullwrite("_data_this_year")),
    ("RollingMeanFlowNodeRecorder", "_memory"): ("only the slots written since reset() put position back are averaged",
                                                 lambda m: True),
    ("RollingWindowParameterRecorder", "_memory"): ("only the slots written since reset() put position back are used",
                                                    lambda m: True),
}


class C01(Check):
    id = "C01"
    technique = "interprocedural effect analysis (abstract interpretation of field reads, writes and must-writes)"
    level_note = ("Decides, for every component class, that no field written during a run and consulted later survives reset(); "
                  "assumes loops over collections run, and that opaque library calls do not keep state of their own.")
    assumptions = ["objects reachable only through library types (pandas, tables) are judged by the assignment of the field"]
    explanation = ("For every node, parameter and recorder class the methods the engine drives during a run are "
                   "interpreted abstractly (helpers, super chains and properties inlined); a field is run state when a run "
                   "method writes it and some run method may read the value left by an earlier step (or accumulates into "
                   "it, or writes it only under a run-dependent condition while another method reads it). The rule: "
                   "reset() (or an explicit first-step branch) must write the whole field from configuration only.")

    def run(self):
        self.prop_reads = {}
        P = self.prog
        for fam, c in component_classes(P):
            self.judge(fam, c)
        self.model_reset()
        SpecRunner(self, self.id).run()
        self.floor("classes", 120)
        self.floor("run_state_fields", 35)

    def entries(self, fam, c):
        names = [n for n in RUN[fam] if c.find_method(n)]
        if "calc_values" in names:      # drives value() and index()
            names = [n for n in names if n not in ("value", "index")]
        q = [n for n in method_names(c) if QUERY[fam](n) and n not in names]
        return names, q

    def abstract(self, c):
        v = c.find_method("value")
        if c.find_method("calc_values") is not self.prog.cls("parameters._parameters.Parameter").methods["calc_values"]:
            return False
        return Effects(self.prog).collect(v, c)[1] is None

    def judge(self, fam, c):
        P = self.prog
        self.count("classes")
        names, q = self.entries(fam, c)
        if fam == "parameter" and self.abstract(c):
            return
        evs, must0 = [], frozenset()
        seq = frozenset()
        e = Effects(P)
        muts, reads = {}, []
        endmust = {}
        order = sorted(names, key=lambda n: ("before", "calc_values", "value", "index").index(n)
                       if n in ("before", "calc_values", "value", "index") else 9) + q
        for n in order:
            f = c.find_method(n)
            # queries are answered after the component's own values were computed for the step
            start = must0 if n in ("value", "index") else seq
            if n == "finish":
                start = frozenset()
            ev, st = e.collect(f, c, st=State(must=start))
            self.count("methods")
            if st is None and n == "calc_values":
                return      # abstract: cannot be evaluated
            if st is not None:
                endmust[n] = st.must
                if n == "before":
                    must0 = st.must
                    seq = st.must
                elif n == "calc_values":
                    seq = seq | st.must
            for x in ev:
                x.path = (n, x.path)
                (muts.setdefault(x.field, []).append(x) if x.kind == "W" else reads.append(x))
        if not muts:
            return
        # reset
        rf = c.find_method("reset")
        rev, rst = e.collect(rf, c) if rf else ([], None)
        rmust = rst.must if rst is not None else frozenset()
        # readers outside the run
        other = set()
        oreads = None
        for F in sorted(muts):
            why = self.carried(c, F, muts[F], reads, endmust)
            if why is None and F not in [x.field for x in reads]:
                if oreads is None:
                    oreads = self.outside_reads(c, names + q)
            if why is None and any(self.conditional(x, muts) for x in muts[F]):
                if oreads is None:
                    oreads = self.outside_reads(c, names + q)
                if F in oreads or F in [x.field for x in reads]:
                    x = [x for x in muts[F] if self.conditional(x, muts)][0]
                    # only stale if no run method wholly writes it
                    if not any(("W", F) in m for m in endmust.values()):
                        why = ("written only under %s and read by another method" % (x.guards[-1][0],), x)
            if why is None and fam == "node" and not any(("W", F) in m for m in [must0]):
                why = self.published(c, F, muts)
            if why is None:
                continue
            if self.excepted(c, F, muts):
                continue
            self.count("run_state_fields")
            self.item("run_state", "%s.%s" % (c.qual, F))
            self.check_reset(c, F, why, muts, rev, rmust, rf)

    def published(self, c, F, muts):
        # the node's public properties hand the stored value to parameters of the next step
        for k in c.mro:
            for pn, pr in k.props.items():
                if "get" in pr and not pn.startswith("_"):
                    key = (c, pn)
                    if key not in self.prop_reads:
                        ev, _ = Effects(self.prog).collect(pr["get"], c)
                        e = {root(x.path) for x in ev if x.kind == "R"}
                        r = set()
                        for n in ast.walk(pr["get"].node):
                            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                                r.add(n.attr)
                        self.prop_reads[key] = e | r
                    if F in self.prop_reads[key]:
                        return ("published as `%s` and changed by the run" % pn, muts[F][0])
        return None

    def excepted(self, c, F, muts):
        for k in c.mro:
            x = EXCEPT.get((k.name, F))
            if x is not None and x[1](muts):
                self.item("exceptions", "%s.%s: %s" % (k.name, F, x[0]))
                return True
        return False

    def conditional(self, x, muts):
        if not (x.how.startswith("item") or x.how == "assign"):
            return False
        return any(not self.config_guard(g, muts) for g in x.guards)

    def config_guard(self, g, muts):
        """A condition that depends on configuration only (same in every step)."""
        txt = g[0]
        if "arg:" in txt or "scenario" in txt or "timestep" in txt:
            return False
        for F in muts:
            if re.search(r"\bself\.%s\b" % re.escape(F), txt):
                return False
        return "self." in txt

    def outside_reads(self, c, run):
        out = set()
        e = Effects(self.prog)
        todo = [c.find_method(n) for n in method_names(c) if n not in run and n not in NOT_RUN]
        for k in c.mro:
            for pn, pr in k.props.items():
                if "get" in pr:
                    todo.append(pr["get"])
        for f in todo:
            ev, _ = e.collect(f, c)
            out |= {x.field for x in ev if x.kind == "R"}
        return out

    def carried(self, c, F, ws, reads, endmust):
        for x in ws:
            if x.how == "acc" and ("W", F) not in x.must:
                return ("accumulated by %s" % x.func.qual, x)
            if x.how.startswith("aug") and ("W", F) not in x.must:
                return ("updated from its previous value in %s" % x.func.qual, x)
        for x in reads:
            if x.field == F and ("W", F) not in x.must:
                # a read of the object's interface, not of the stored state
                return ("read in %s before this step has written it" % x.func.qual, x)
        return None

    def check_reset(self, c, F, why, muts, rev, rmust, rf):
        common = None
        for x in muts[F]:
            gs = set(x.guards)
            common = gs if common is None else common & gs
        ok = False
        bad = None
        for x in rev:
            if x.kind != "W" or x.field != F:
                continue
            if x.how in ("assign", "item:full", "item:elem", "clear", "out"):
                stale = {root(d) for d in (x.deps or ()) if root(d)}
                live = sorted(d for d in (x.deps or ()) if d.startswith("run:"))
                if live:
                    bad = ("reset() derives it from another component's value of the moment (%s)" % ", ".join(live), x, True)
                    continue
                stale = {s for s in stale if s in muts and ("W", s) not in x.must and (s == F or self.truly_run(s, muts))}
                if stale:
                    bad = ("reset sets it from run state (%s)" % ", ".join(sorted(stale)), x, True)
                    continue
                g = {y for y in x.guards}
                if ("W", F) in rmust or g <= (common or set()) or all(self.config_guard(y, muts) for y in g) and \
                        self.covered(g, muts[F]):
                    ok = True
            elif bad is None:
                bad = ("reset only partly overwrites it (%s)" % x.how, x)
        if bad is not None and bad[2:] == (True,):
            ok = False
        elif not ok:
            for x in muts[F]:
                if x.how in ("assign", "item:full", "item:elem") and any(is_ts0(g) for g in x.guards) and \
                        all(is_ts0(g) or self.config_guard(g, muts) for g in x.guards):
                    ok = True
        if ok:
            return
        x = why[1]
        owner = x.func.cls.name if x.func.cls else c.name
        key = "%s.%s/reset:%s" % (self.owner(c, F, muts), F, rf.cls.qual if rf else "none")
        msg = "%s.%s is run state (%s) but %s" % (
            c.qual, F, why[0], bad[0] if bad else "reset() does not re-initialise it" if rf else "the class has no reset()")
        path = ["%s %s at %s" % (y.func.qual, y.how, y.where) for y in muts[F][:4]] + \
               (["reset: %s" % rf.where] if rf else []) + (["%s" % bad[1].where] if bad else [])
        self.report("reset-complete", key, x.where, msg, path)

    def truly_run(self, s, muts):
        return True

    def owner(self, c, F, muts):
        # name the class that writes the field, so subclasses share one finding
        own = [x.func.cls for x in muts[F] if x.func.cls is not None]
        own = [k for k in c.mro if k in own]
        return own[0].qual if own else c.qual

    def covered(self, g, ws):
        """Every mutation happens under the (configuration) conditions of the reset write."""
        return all(g <= set(x.guards) for x in ws)

    def model_reset(self):
        """Model.reset reaches every node, every component, the timestepper and the solver; coupled models every sub-model."""
        from .c05 import C05, ModelTrace
        h = C05(self.prog, self.tier)
        h.node, h.comp = self.prog.cls("_core.AbstractNode"), self.prog.cls("_component.Component")
        for cls, fam, need in ((self.prog.cls("_model.Model"), "model", ("timestepper", "node", "component", "solver")),
                               (self.prog.cls("model.MultiModel"), "multi", ("sub",))):
            f = cls.find_method("reset")
            evs, _ = ModelTrace(self.prog).collect(f, cls)
            got = {}
            for e in evs:
                if e.kind == "call" and e.name == "reset":
                    t = h.target(e, fam)
                    if t:
                        got.setdefault(t, []).append(e)
            for t in need:
                self.count("reset_calls")
                es = got.get(t, [])
                part = got.get("some %ss" % t, [])
                if any(not e.guards for e in es):
                    continue
                if es:
                    why = "only under %s" % (es[0].guards,)
                elif part:
                    why = "only on some of them (%s)" % ", ".join(sorted(part[0].recv))
                else:
                    why = "not at all"
                self.report("reset-reaches", "%s.reset:%s" % (cls.name, t), (es or part)[0].where if es or part else f.where,
                            "%s.reset resets each %s %s" % (cls.name, t, why))


CHECK = C01
