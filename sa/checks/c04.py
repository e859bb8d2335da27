import ast
import re

from ..families import component_classes, families, method_names
from ..gvn import Gvn, final_cells, show, showx
from ..interp import State
from ..report import Check
from ..spec import SpecRunner, dims, summarise

# reading the current value of another parameter or recorder
READ = ("get_value", "get_values", "get_all_values", "get_index", "get_indices", "get_all_indices", "value", "index", "values")
STEP = ("before", "calc_values", "value", "index", "after", "get_value", "get_index", "get_all_values")


CONFIG = ("name", "model", "parents", "children", "is_constant", "size", "double_size", "integer_size", "__class__")
WEAK = ("value", "index", "values")             # too common to mean a component when the receiver is unknown


class Plain:
    keep = ()


class Reads(Gvn):
    """Also records the attributes read from other components."""
    bases = ()

    def __init__(self, *a):
        super().__init__(*a)
        self.reads = []

    def x_attr(self, b, attr, res, node, st):
        r = super().x_attr(b, attr, res, node, st)
        kinds = [t for t in b.insts() if any(x in t.mro for x in self.bases)]
        if kinds and b.p != frozenset(["self"]) and not any(attr in c.methods or attr in CONFIG for t in kinds for c in t.mro):
            t = self.term(b)
            for p, _ in t or ():
                self.reads.append((show(p), "." + attr, self.loc(node)))
        return r


def names_in(func):
    return {n.attr for n in ast.walk(func.node) if isinstance(n, ast.Attribute)}


class C04(Check):
    id = "C04"
    technique = "interprocedural effect analysis of dependency edges against the values read each step, and reference equations for registration and replacement"
    explanation = ("For every parameter, recorder and node class the parameters and recorders whose values its per-step methods "
                   "read are collected (helpers inlined, receivers typed and traced to the attribute they are stored in) and each "
                   "attribute must be registered as a dependency by some constructor, setter or method of the class. The dependency edges added "
                   "and removed by every constructor, setter and mutator are summarised with their conditions and compared with reference equations, "
                   "including that a component which replaces itself stays registered.")
    assumptions = ["the component graph is evaluated dependencies first (decided by C05)",
                   "nodes are only queried after all parameters of the step have been evaluated"]
    level_note = "decides registration of every read traced to an attribute of the class; reads through values handed over at run time are listed, not decided"

    def run(self):
        SpecRunner(self, self.id).run()
        self.floor("functions_compared", 20)
        self.reads()
        self.floor("reads_registered", 20)

    def summary(self, f, k):
        key = (id(f.node), k.name)
        if key not in self.memo:
            try:
                ps = f.node.args.posonlyargs + f.node.args.args
                g, cells, ret, raised, out = summarise(self.prog, f, k, [a.arg for a in ps][1:], Plain, {}, make=Reads)
                self.memo[key] = (g, cells)
            except Exception as e:              # out of reach of the domain: listed, not decided
                self.item("functions out of reach", "%s.%s (%r)" % (k.name, f.name, e))
                self.memo[key] = None
        return self.memo[key]

    def functions(self, k, all_=False):
        """(name, function) of a class; with ``all_`` also the overridden ones, which super() reaches."""
        seen = set()
        for c in k.mro:
            for n, f in list(c.methods.items()) + [(kind + " " + n, p[kind]) for n, p in c.props.items() for kind in ("get", "set") if p.get(kind) is not None]:
                if (all_ or n not in seen) and f.kind not in ("class", "static"):
                    seen.add(n)
                    yield n, f

    def registered(self, k):
        """Attributes whose components are registered as dependencies, and the texts of those components."""
        attrs, texts, blind = set(), set(), []
        for n, f in self.functions(k, True):
            if n != "__init__" and not names_in(f) & {"children", "parents"}:
                continue
            s = self.summary(f, k)
            if s is None:
                blind.append(f.qual)
                continue
            g, cells = s
            edges, _, bad = SpecRunner.edge_events(self, g)
            blind += bad
            childs = {plain(c) for (op, c, p) in edges if op == "add" and p == "self"}
            texts |= childs
            for q, x in cells.items():
                for p, _ in x or ():
                    t = plain(show(p))
                    # the component itself, the collection it is an element of, or a list of such elements
                    t = re.sub(r"\[\*\{[^{}]*\}\]", "[#]", t)
                    if t != "None" and any(c == t or c.startswith(t + "[") or holds(t, re.sub(r"\[\*\{[^{}]*\}\]", "[#]", c)) for c in childs):
                        attrs.add(re.match(r"[\w.]*", q).group(0))
        return attrs, texts, blind

    def factories(self):
        """Functions that make a property which registers what is assigned to the attribute they name."""
        out = {}
        for m in self.prog.modules.values():
            for n, f in m.funcs.items():
                ps = [a.arg for a in f.node.args.args]
                for x in ast.walk(f.node):
                    if isinstance(x, ast.FunctionDef) and x is not f.node and len(x.args.args) == 2:
                        me, val = (a.arg for a in x.args.args)
                        calls = [c for c in ast.walk(x) if isinstance(c, ast.Call)]
                        adds = any(isinstance(c.func, ast.Attribute) and c.func.attr == "add" and (
                            (ast.unparse(c.func.value), [ast.unparse(a) for a in c.args]) in (
                                (me + ".children", [val]), (val + ".parents", [me]))) for c in calls)
                        for c in calls:
                            if adds and isinstance(c.func, ast.Name) and c.func.id == "setattr" and len(c.args) == 3 and (
                                    ast.unparse(c.args[0]) == me and ast.unparse(c.args[2]) == val and ast.unparse(c.args[1]) in ps):
                                out[n] = ps.index(ast.unparse(c.args[1]))
        return out

    def by_property(self, k, facts):
        """Attributes only ever assigned through such a property."""
        out = {}
        for c in k.mro:
            for a, v in c.class_attrs.items():
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in facts:
                    i = facts[v.func.id]
                    if len(v.args) > i and isinstance(v.args[i], ast.Constant):
                        out["self." + v.args[i].value] = "self." + a
        for n, f in self.functions(k, True):
            s = self.summary(f, k) if any(o[5:] in names_in(f) for o in out) else None
            for q, x in (s[1] if s else {}).items():
                if q in out and x is not None and any(show(p) not in ("None", q) for p, _ in x):
                    out.pop(q)
        return set(out)

    def elsewhere(self, k):
        """Attributes that hold components of another model (which has a graph of its own)."""
        out = set()
        for n, f in self.functions(k):
            if n == "setup":
                s = self.summary(f, k)
                for q, x in (s[1] if s else {}).items():
                    if x and all(".models[" in show(p) for p, _ in x):
                        out.add(q)
        return out

    def reads(self):
        self.memo = {}
        fam = families(self.prog)
        Reads.bases = bases = (fam["parameter"], fam["recorder"])
        facts = self.factories()
        for kind, k in component_classes(self.prog):
            if kind == "node":
                continue
            reg = None
            for n, f in self.functions(k):
                if n not in STEP:
                    continue
                s = self.summary(f, k)
                if s is None:
                    continue
                found = set(s[0].reads)
                for e in s[0].evs:
                    if e.kind == "call" and e.name in READ and e.idx[0] is not None and (
                            any(b in t.mro for t in e.types for b in bases) or not e.types and (
                            e.name not in WEAK or e.name != "values" and len(e.args) == 2)):
                        found |= {(show(p), e.name, e.where) for p, _ in e.idx[0]}
                for t, what, where in sorted(found):
                    t = plain(t)
                    if not t.startswith("self."):
                        if t != "self":
                            self.item("reads not traced to an attribute", "%s.%s: %s" % (k.name, n, t))
                        continue
                    if reg is None:
                        reg = self.registered(k)
                    root = re.match(r"self\.\w+", t).group(0)
                    rest = t[len(root):]
                    self.count("reads_registered")
                    if root in reg[0] or any(c == t or c == root or c.startswith(root + "[") for c in reg[1]):
                        continue
                    if rest.startswith((".items()[", ".keys()[")):
                        # keys of a dictionary: what they are registered by is the equation of the method that fills it
                        self.item("reads through the keys of a dictionary", "%s.%s: %s" % (k.name, n, t))
                        continue
                    if n == "after" and re.match(r"\.\w+$", rest):
                        # a limit of another component, evaluated in the phase before
                        self.item("reads of another component's values at the end of a step", "%s.%s: %s" % (k.name, n, t))
                        continue
                    if root in self.by_property(k, facts):
                        continue
                    if root in self.elsewhere(k):
                        self.item("reads of components of another model", "%s.%s: %s" % (k.name, n, t))
                        continue
                    if reg[2]:
                        self.item("reads undecided", "%s.%s: %s (%s)" % (k.name, n, t, reg[2][:2]))
                        continue
                    self.report("unregistered", "%s|%s" % (k.name, t), where, "%s.%s reads %s (%s) but no constructor, setter or method of %s "
                                "registers it as a dependency: it may be evaluated after this component" % (k.name, n, t, what, k.name))


def holds(t, c):
    return t.startswith(("each(", "[", "cat(", "ext(", "chain(")) and re.search(r"(?<![\w.])%s(?![\w.])" % re.escape(c), t) is not None


def plain(t):
    return re.sub(r"@\d+", "", t)


CHECK = C04
