"""Reference equations: what a function has to compute, written as plain code under ``sa/refs``.

A reference is never executed: it is interpreted by the same value numbering as the function it
describes and the two summaries (final contents of the fields, returned value, calls made on other
objects) are compared.  Only a difference between two fully understood summaries is reported; a
value the domain cannot express, or which uses functions or fields no reference knows, is counted
as undecided."""
import ast
import copy
import glob
import itertools
import os
import re

from .terms import add, mul
from .gvn import disj, FALSE, feasible, all_worlds, assignments, both, conj, POLYS, Gvn, elem, final_cells, showx, showc, simplify, equal_cond, TRUE, atom, E, lits, show, atoms
from .interp import V, State, NOK
from .program import AnalysisBroken, Func

REFS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refs")
WORD = re.compile(r"[A-Za-z_]\w*")
KNOWN = set("""glob pywr sum prod min max mean median any all isnan exp sqrt log abs pow len isinstance Mod FloorDiv nan inf None True False
S new arg self if not and or acc last is np array each percentile argmin argmax T int floor ceil round
sort zeros ones empty full where axis LShift BitAnd raises ZeroDivisionError""".split())


class Ref:
    def __init__(self, node, opts, src):
        self.node, self.o, self.src = node, opts, src
        self.target, self.method = opts["target"], opts["method"]
        self.props = opts.get("props", "").split()
        self.keep = tuple(opts.get("keep", "").split())
        self.cases = opts.get("cases") or [{}]
        self.cells = opts.get("cells")
        self.calls = opts.get("calls", "").split()
        self.selfcalls = opts.get("selfcalls", "").split()
        self.sets = opts.get("sets", "").split()
        self.raises = opts.get("raises", False)
        self.ret = opts.get("ret", True)
        self.why = opts.get("why", "")
        self.inst = opts.get("inst")

    def refuses(self):
        return not self.o.get("law") and any(isinstance(x, ast.Raise) for x in ast.walk(self.node))


def load():
    """All references, and every identifier they use."""
    refs, words = [], set(KNOWN)
    for fn in sorted(glob.glob(os.path.join(REFS, "*.py"))):
        with open(fn) as fh:
            txt = fh.read()
        tree = ast.parse(txt)
        for n in tree.body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                names = [a.value for a in d.args]
                o = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                for at in (o.get("attrs") or "-").split():
                    n2 = n if at == "-" else rename(n, at)
                    words |= set(WORD.findall(ast.unparse(n2)))
                    for t in names[0].split():
                        if d.func.id == "law":
                            refs.append(Ref(n2, dict(o, target=t, method="", law=True, attr=at), os.path.basename(fn)))
                        for m in names[1:]:
                            refs.append(Ref(n2, dict(o, target=t, method=m.replace("ATTR", at)), os.path.basename(fn)))
    for r in refs:
        words |= set(WORD.findall(r.method))
    with open(os.path.join(REFS, "fields.txt")) as fh:
        words |= set(fh.read().split())
    return refs, words | {"as_int", "as_float32", "as_bool"}     # (conversions the evaluation itself names)


class Rename(ast.NodeTransformer):
    def __init__(self, to):
        self.to = to

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = n.attr.replace("ATTR", self.to)
        return n


def rename(node, to):
    return Rename(to).visit(copy.deepcopy(node))


LEMMAS = [(re.compile(r"\.get_all_(cost|min_flow|max_flow|min_volume|max_volume)\((?:None|arg:out\[:\])\)"), r".get_all_\1()"),
          (re.compile(r"\.get_(cost|min_flow|max_flow|min_volume|max_volume)\(S\[:\]\)"), r".get_all_\1()[:]"),
          (re.compile(r"cat\([^;()]*; (new:\w+@\d+)\)\[-1\]"), r"\1"),
          (re.compile(r"new:(\w+)@\d+"), r"new:\1"),
          (re.compile(r"\bacc:(self\.[\w.]+)@\d+"), r"\1"),
          (re.compile(r"\.get_value\(S\[:\]\)"), ".get_all_values()[:]"),
          (re.compile(r"\.get_index\(S\[:\]\)"), ".get_all_indices()[:]")]


def lemma(t, keep=False):
    for r, w in LEMMAS:
        if not keep or w != r"new:\1":
            t = r.sub(w, t)
    return t


def lemmas(x, keep=False):
    """Apply the equalities that hold for every parameter to all atoms of a value; with keep, new objects
    stay distinguished by the place that creates them."""
    if x is None:
        return None
    out = set()
    for p, c in x:
        q = {}
        for m, k in p:
            m2 = tuple(sorted((lemma(a, keep), e) for a, e in m))
            q[m2] = q.get(m2, 0.0) + k
        out.add((frozenset((m, k) for m, k in q.items() if k), frozenset((lemma(l, keep), b) for l, b in c)))
    return frozenset(out)


def defaulted(x):
    """``d.pop(k) if k in d else v`` as the look-up with a default that it is."""
    if x is None or len(x) != 2:
        return x
    for (p, c), (q, b) in itertools.permutations(x):
        m = re.match(r"(.*)(?:\.pop\(('\w+')\)|\[('\w+')\])$", show(p))
        if m:
            l = "%s in %s" % (m.group(2) or m.group(3), m.group(1))
            if (l, True) in c and (l, False) in b and c - {(l, True)} == b - {(l, False)} and "(" not in show(q):
                return frozenset([(atom("%s.pop(%s, %s)" % (m.group(1), m.group(2) or m.group(3), show(q))), c - {(l, True)})])
    return x


def solve(d):
    """Atom and its value in a linear equation d == 0."""
    best = None
    for m, c in sorted(d, key=lambda t: str(t[0])):
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            rest = frozenset((n, -k / c) for n, k in d if n != m)
            if not any(a in b for b in atoms(rest)):
                best = (a, rest)
    return best


def under(x):
    """Use the equations among the conditions of an alternative in its value."""
    if x is None:
        return None
    out = set()
    for p, c in x:
        for l, b in sorted(c):
            if b and l.endswith(" == 0") and l in POLYS:
                s = solve(POLYS[l])
                if s is not None and any(s[0] in a for a in atoms(p)):
                    q = substitute(p, *s)
                    if q is not None:
                        p = q
        out.add((p, c))
    return frozenset(out)


def substitute(p, a, q):
    out = frozenset()
    for m, k in p:
        e = dict(m)
        n = e.pop(a, 0)
        if n != int(n) or n < 0:
            return None
        r = frozenset([(tuple(sorted(e.items())), k)])
        for _ in range(int(n)):
            r = mul(r, q)
        out = add(out, r)
    return out


def prepare(node, real):
    """Make a reference look like a lowered method with the signature types of the real one."""
    n = copy.deepcopy(node)
    n.decorator_list = []
    for x in ast.walk(n):
        if isinstance(x, ast.FunctionDef):
            x.cy_kind, x.cy_ret, x.cy_exc = "def", None, None
    n.cy_kind, n.cy_ret, n.cy_exc = getattr(real.node, "cy_kind", "def"), getattr(real.node, "cy_ret", None), None
    ra, fa = real.node.args, n.args
    rn, fn_ = ra.posonlyargs + ra.args, fa.posonlyargs + fa.args
    for a, b in zip(rn, fn_):
        if b.annotation is None and a.annotation is not None:
            b.annotation = a.annotation
    return Func(n, real.module, real.cls, real.kind)


_dims = {}
# fields that belong to particular properties only
ROUTE = {"_prev_flow": ("C06", "C02")}
FIXED_DIMS = {"_Parameter__values": ("S",), "_IndexParameter__indices": ("S",)}


def all_dims(prog):
    """Labels of the axes of array fields from their allocations: {class: {field: labels}}."""
    if prog not in _dims:
        out = {}
        g = Gvn(prog)
        for m in prog.modules.values():
            for c in m.classes.values():
                for mn in ("setup",):
                    f = c.methods.get(mn)
                    if f is None:
                        continue
                    g.evs = []
                    g.shapes = {}
                    try:
                        g.run(f, c)
                    except RecursionError:
                        continue
                    for e in g.evs:
                        if e.kind == "write" and e.val is not None and "self" in e.recv:
                            for q in e.val.p:
                                if q in g.shapes:
                                    out.setdefault(c, {})[e.name] = tuple(norm_dim(x) for x in g.shapes[q])
        _dims[prog] = out
    return _dims[prog]


def dims(prog, cls=None):
    al = all_dims(prog)
    seen = {}
    for c, d in al.items():
        for a, s in d.items():
            seen.setdefault(a, set()).add(s)
    out = {a: next(iter(s)) for a, s in seen.items() if len(s) == 1}
    if cls is not None:
        for k in reversed(cls.mro):
            out.update(al.get(k, {}))
    out.update(FIXED_DIMS)
    return out


def norm_dim(x):
    if x is None:
        return "?"
    if x.endswith(".timestepper"):
        return "T"
    return x


def value_of(g, spec, name, st):
    if spec is None:
        return V(t=frozenset([("none",)]), k=None)
    if spec == "array":
        p = frozenset(["arg:" + name])
        g.exact["arg:" + name] = "array"
        return V(t=frozenset([("arr", 1, "double")]), p=p, d=p)
    if isinstance(spec, (bool, int, float)):
        return V(t=frozenset([("num", "double")]), k=spec)
    if isinstance(spec, str) and spec.startswith("enum:"):
        return V(x=g.pure(g.enum_const(spec[5:])), t=frozenset([("num", "int")]))
    if isinstance(spec, str) and spec.startswith("str:"):
        return V(t=frozenset([("str",)]), k=spec[4:])
    if spec == "num":
        p = frozenset(["arg:" + name])
        g.exact["arg:" + name] = "num"
        return V(t=frozenset([("num", "double")]), p=p, d=p)
    if spec == "scenario":
        return V(x=g.pure(atom(":")), t=frozenset([("num", "int")]))
    if isinstance(spec, str) and spec.startswith("inst:"):
        c = g.prog.cls(spec[5:])
        p = frozenset(["arg:" + name])
        g.exact["arg:" + name] = c
        return V(t=frozenset([("inst", c)]), p=p, d=p)
    raise ValueError(spec)


def summarise(prog, func, cls, names, ref, case, make=Gvn):
    g = make(prog, dims(prog, cls))
    g.keep = ref.keep
    g.opaque_super = frozenset(c[6:] for c in getattr(ref, "calls", ()) if c.startswith("super."))
    st = State()
    args = {}
    fa = func.node.args
    params = fa.posonlyargs + fa.args
    if func.kind in ("method", "get", "set", "class", "del") and params:
        params = params[1:]
    for i, a in enumerate(params):
        nm = names[i] if i < len(names) else a.arg
        if nm in case:
            args[a.arg] = value_of(g, case[nm], nm, st)
        else:
            v = g.entry_arg(func, a)
            p = frozenset(["arg:" + nm])
            args[a.arg] = v.with_(p=p, d=p)
    if "?" in case:
        # only the uses in which these tests come out this way
        g.setpc(st, frozenset([frozenset((l[4:], False) if l.startswith("not ") else (l, True) for l in case["?"])]))
    for k, v in case.items():
        if "." in k and k != "?":
            st.heap[k] = value_of(g, v, k, st)
    r, out = g.run(func, cls, args=args, st=st)
    cells = final_cells(g, out)
    ret = elem(g, r, out) if out is not None else None
    raised = simplify({c for pc, _, _, _ in g.raise_pcs for c in pc})
    return g, cells, ret, raised, out


def case_name(case):
    return ", ".join(" and ".join(v) if k == "?" else "%s=%s" % (k, v) for k, v in sorted(case.items(), key=str))


def words_of(x):
    w = set()
    for p, c in x:
        for a in atoms(p):
            w |= set(WORD.findall(re.sub(r"'[^']*'", "", a)))
        for l, _ in c:
            w |= set(WORD.findall(re.sub(r"'[^']*'", "", l)))
    return w


def group(x):
    by = {}
    for p, c in x:
        by.setdefault(p, set()).add(c)
    return {p: simplify(cs) for p, cs in by.items()}


def renew(x):
    """Number anonymous arrays canonically."""
    return x


def pick(x, env):
    """Values of a gated term in a world, with the equations of that world applied."""
    out = set()
    for p, c in x:
        if all(env[l] == b for l, b in c):
            for l in sorted(env):
                if env[l] and l.endswith(" == 0") and l in POLYS:
                    s = solve(POLYS[l])
                    if s is not None and any(s[0] in a for a in atoms(p)):
                        q = substitute(p, *s)
                        p = q if q is not None else p
            out.add(show(p))
    return out


class Compare:
    def __init__(self, prog, words):
        self.prog, self.words = prog, words
        self.raised = frozenset()

    def same(self, code, ref):
        """Do both select the same value in every possible case?"""
        if not {show(p) for p, _ in code} & {show(p) for p, _ in ref}:
            return False
        ws = all_worlds({l for x in (code, ref) for _, c in x for l, _ in c})
        if ws is None:
            return False
        for env in assignments(ws):
            a, b = pick(code, env), pick(ref, env)
            # where the function raises there is no value
            if a != b and not ((not a or not b) and any(all(env.get(l, t) == t for l, t in c) for c in self.raised)):
                return False
        return True

    def values(self, code, ref):
        """None when equal, ('undecided', why) or ('differs', text)."""
        if ref is None:
            return ("undecided", "reference not expressible")
        if code is None:
            return ("undecided", "value not expressible")
        code, ref = under(lemmas(code)), under(lemmas(ref))
        if code == ref:
            return None
        a, b = group(code), group(ref)
        if self.same(code, ref):
            return None
        unknown = words_of(code) - self.words - words_of(ref)
        unknown = {w for w in unknown if not w.startswith("new")}
        if any("??" in l for x in (code, ref) for _, c in x for l, _ in c):
            return ("undecided", "condition not expressible")
        if any("~" in t for x in (code, ref) for p, _ in x for t in atoms(p)):
            return ("undecided", "value too long")
        extra = [p for p in a if p not in b]
        missing = [p for p in b if p not in a]
        if not extra and not missing:
            bad = None
            for p in a:
                q = equal_cond(a[p], b[p])
                if q is False:
                    bad = p
                    break
                if q is None:
                    return ("undecided", "too many conditions")
            if bad is None:
                return None
            if unknown:
                return ("undecided", "uses %s" % ", ".join(sorted(unknown)[:4]))
            return ("differs", "%s is taken when %s instead of when %s" % (
                short_(show(bad)), short_(" or ".join(sorted(showc(c) for c in a[bad]))),
                short_(" or ".join(sorted(showc(c) for c in b[bad])))))
        if unknown:
            return ("undecided", "uses %s" % ", ".join(sorted(unknown)[:4]))
        full = [any(t.startswith("{'") for p, _ in x for t in atoms(p)) for x in (code, ref)]
        if full[0] != full[1] and any("{}" in t for x in (code, ref) for p, _ in x for t in atoms(p)):
            return ("undecided", "a dictionary filled step by step")
        if any(k in t for x in (code,) for p, _ in x for t in atoms(p) for k in ("fold(", "raises(")) and not \
                any(k in t for p, _ in ref for t in atoms(p) for k in ("fold(", "raises(")):
            return ("undecided", "loop not in closed form")
        return ("differs", "computes %s, must be %s" % (short_(showx(code)), short_(showx(ref))))


def short_(t, n=420):
    return t if len(t) <= n else t[:n] + " ..."


def initial_x(key):
    return frozenset([(atom(key), E)])


def exists(cube, names):
    """A case with the facts that the named components exist removed; None when it says they do not."""
    out = set()
    for l, b in cube:
        done = False
        for n in names:
            if l in (n + " is None", n + " == None"):
                if b:
                    return None
                done = True
            elif l in (n, "bool(%s)" % n):
                if not b:
                    return None
                done = True
        if not done:
            out.add((l, b))
    return frozenset(out)


class SpecRunner:
    """Evaluate all references carrying a property."""

    def __init__(self, check, pid):
        self.c, self.pid, self.prog = check, pid, check.prog
        self.refs, self.words = load()
        self.cmp = Compare(self.prog, self.words)
        self._params = {}

    def run(self, sel=None):
        n = 0
        done = set()
        for r in self.refs:
            if (self.pid in r.props or (self.refusals and r.refuses())) and (sel is None or sel(r)):
                for r in self.expand(r):
                    k = (id(r.o["cases"]) if r.o.get("cases") else 0, r.o.get("why"), r.o.get("attr"), r.target, r.method, r.o.get("at"))
                    if r.o.get("law") and k in done:
                        continue
                    done.add(k)
                    try:
                        self.one(r)
                    except (AnalysisBroken, KeyboardInterrupt):
                        raise
                    except Exception as e:      # one function out of reach must not silence the others
                        self.c.item("functions undecided", "%s.%s: analysis failed (%r)" % (r.target, r.method, e))
                    n += 1
        return n

    def expand(self, r):
        """A law also holds for the subclasses that override one of the members named by ``over``."""
        yield r
        if not r.o.get("over"):
            return
        c = self.prog.cls(r.target)
        if c is None:
            return
        names = r.o["over"].replace("ATTR", r.o.get("attr", "")).split()
        listed = {q.target for q in self.refs if q.o.get("over") and q.node is r.node}
        for k in sorted(self.prog.subs(c), key=lambda k: k.name):
            t = k.module.name[5:] + "." + k.name if k.module.name.startswith("pywr.") else k.module.name + "." + k.name
            if k is c or t in listed or not any(n in k.methods or n in k.props for n in names):
                continue
            q = copy.copy(r)
            q.target = t
            yield q

    refusals = False                    # compare when input is refused, and nothing else
    widened = False                     # are path conditions of the functions compared incomplete?

    def find(self, r):
        if r.target.endswith(":"):
            mod = self.prog.modules.get("pywr." + r.target[:-1])
            first, *inner = r.method.split(".")
            f = mod.funcs.get(first) if mod else None
            for n in inner:                     # a function made by a function
                nodes = [x for x in f.node.body if isinstance(x, ast.FunctionDef) and x.name == n] if f is not None else []
                f = Func(nodes[0], mod, None, "func") if len(nodes) == 1 else None
            return f, None
        c = self.prog.cls(r.target)
        if c is None:
            return None, None
        if r.method[:4] in ("get ", "set "):
            pr = c.find_prop(r.method[4:])
            f = (pr or {}).get(r.method[:3])
        else:
            f = c.find_method(r.method)
        return f, (self.prog.cls(r.inst) if r.inst else c)

    def law(self, r):
        """Equalities between results of the class's own operations (``same(a, b)`` in the law)."""
        ck = self.c
        cls = self.prog.cls(r.target)
        if cls is None:
            ck.item("references without a function", r.target)
            return
        node = copy.deepcopy(r.node)
        node.decorator_list = []
        for x in ast.walk(node):
            if isinstance(x, ast.FunctionDef):
                x.cy_kind, x.cy_ret, x.cy_exc = "def", None, None
        func = Func(node, cls.module, cls, "method")
        at = r.o.get("at", "").replace("ATTR", r.o.get("attr", ""))
        where = self.locate(cls, at)
        names = [a.arg for a in node.args.args][1:]
        for case in r.cases:
            tag = "%s %s" % (r.target, r.o["attr"] if r.o["attr"] != "-" else at or r.why)
            if case:
                tag += "(%s)" % case_name(case)
            g, cells, ret, raised, out = summarise(self.prog, func, cls, names, r, case)
            und, n = [], 0
            for e in g.evs:
                if e.kind == "call" and e.name == "same" and len(e.idx[1]) == 2:
                    n += 1
                    ck.count("laws_compared")
                    a, b = (lemmas(x) for x in e.idx[1])
                    res = self.cmp.values(a, b)
                    if res is not None and res[0] == "differs":
                        res = ("differs", res[1].replace("computes", "gives", 1))
                    self.judge(r, where, tag, "law %d" % n, res, und)
            if not n:
                und.append("not reached")
            ck.item("laws decided" if not und else "laws undecided", tag + (": " + ", ".join(map(str, und[:4])) if und else ""))

    def locate(self, cls, at):
        if at[:4] in ("get ", "set "):
            f = (cls.find_prop(at[4:]) or {}).get(at[:3])
        else:
            f = cls.find_method(at) if at else None
        return f if f is not None else cls

    def one(self, r):
        if r.o.get("law"):
            return self.law(r)
        ck = self.c
        f, cls = self.find(r)
        name = "%s.%s" % (r.target, r.method)
        if f is None:
            ck.item("references without a function", name)
            return
        gone = [x.id for x in ast.walk(r.node) if isinstance(x, ast.Name) and x.id in r.keep and self.prog.resolve(f.module, x.id) is None]
        if gone:  # a helper the reference is written with was renamed or dissolved
            ck.item("functions undecided", "%s: no %s" % (name, ", ".join(sorted(set(gone)))))
            return
        reff = prepare(r.node, f)
        names = [a.arg for a in (r.node.args.posonlyargs + r.node.args.args)]
        if f.kind in ("method", "get", "set", "class", "del"):
            names = names[1:]
        for case in r.cases:
            tag = name + ("(%s)" % case_name(case) if case else "")
            g1, cells, ret, raised, out = summarise(self.prog, f, cls, names, r, case)
            g2, rcells, rret, rraised, rout = summarise(self.prog, reff, cls, names, r, case)
            self.widened = bool(g1.notes or g2.notes)
            self.cmp.raised = raised | rraised
            ck.count("functions_compared")
            und = []
            if self.refusals:
                self.rejects(r, f, tag, raised, rraised, und, g1.tried, g2.tried)
                if und and f.name not in r.keep and any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(r.node)):
                    und = self.own_refusals(r, f, reff, cls, names, case, tag)
                ck.item("functions decided" if not und else "functions undecided", tag)
                continue
            keys = set(rcells)
            for k in sorted(keys):
                if self.routed(k):
                    continue
                if r.cells is not None and not any(k == w or k.startswith(w + "[") or k.startswith(w + ".") for w in r.cells.split()):
                    continue
                code = cells.get(k)
                if k not in cells:
                    if k.endswith("]"):
                        base = k[:k.index("[")] if "[" in k else k
                        others = [q for q in cells if q.startswith(base + "[")]
                        if others:
                            ks = {w for q in others for w in WORD.findall(q)} - self.words
                            if ks or any("?" in showx(cells[q]) for q in others):
                                und.append(k)
                                continue
                    code = self.default(f, k)
                ck.count("values_compared")
                self.judge(r, f, tag, k, self.cmp.values(code, rcells[k]), und)
            if r.cells is None or r.o.get("frame"):
                attrs = {k.split("[")[0] for k in rcells}
                for k in sorted(set(cells) - keys):
                    if k.split("[")[0] in attrs and k.endswith("]") and not self.routed(k):
                        ck.count("values_compared")
                        self.judge(r, f, tag, k, self.cmp.values(cells[k], initial_x(k)), und)
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(r.node))
            if r.ret and not gen and rout is not None and not (rret is not None and showx(rret) == "None"):
                ck.count("values_compared")
                if out is None:
                    self.judge(r, f, tag, "result", ("differs", "never returns"), und)
                else:
                    self.judge(r, f, tag, "result", self.cmp.values(ret, rret), und)
            if r.o.get("edges"):
                self.edges(r, f, tag, g1, g2, out, rout, und)
            if r.calls or r.selfcalls or r.sets:
                self.calls(r, f, tag, g1, g2, und)
            if r.raises or r.refuses():
                self.rejects(r, f, tag, raised, rraised, und, g1.tried, g2.tried)
            ck.item("functions decided" if not und else "functions undecided", tag + (": " + ", ".join(map(str, und[:4])) if und else ""))

    def own_refusals(self, r, f, reff, cls, names, case, tag):
        """What the method refuses besides what the method it overrides refuses."""
        keep, und = r.keep, []
        r.keep = keep + (f.name,)
        try:
            g1, _, _, raised, _ = summarise(self.prog, f, cls, names, r, case)
            g2, _, _, rraised, _ = summarise(self.prog, reff, cls, names, r, case)
        finally:
            r.keep = keep
        self.widened = bool(g1.notes or g2.notes)
        self.rejects(r, f, tag, raised, rraised, und, g1.tried, g2.tried)
        return und

    def rejects(self, r, f, tag, raised, rraised, und, tried, rtried):
        self.c.count("values_compared")

        def passed_on(cond, other):
            """Without a handler on the other side the error itself leaves the function there."""
            if other:
                return cond
            return frozenset(c for c in cond if not any(b and l.startswith("raises(") for l, b in c))
        raised, rraised = passed_on(raised, rtried), passed_on(rraised, tried)
        q = equal_cond(raised, rraised)
        w = {x for c in raised for l, _ in c for x in WORD.findall(re.sub(r"'[^']*'", "", l))} - self.words
        if q is False and not w and not any("??" in l for x in (raised, rraised) for c in x for l, _ in c):
            self.judge(r, f, tag, "rejects", ("differs", "raises when %s, must raise when %s" % (
                short_(" or ".join(sorted(map(showc, raised))) or "never"),
                short_(" or ".join(sorted(map(showc, rraised))) or "never"))), und)
        elif q is None or q is False:
            # conditions that are not expressible: what holds whichever way they fall
            whole = [frozenset(c for c in x if not any("??" in l for l, _ in c)) for x in (raised, rraised)]
            loose = [frozenset(frozenset((l, b) for l, b in c if "??" not in l) for c in x) for x in (raised, rraised)]
            if not w and (whole[0] != raised or whole[1] != rraised):
                for i, txt in ((1, "does not raise when %s"), (0, "raises when %s, which must be accepted")):
                    if whole[i] and equal_cond(conj(whole[i], loose[1 - i]), whole[i]) is False:
                        return self.judge(r, f, tag, "rejects", ("differs", txt % short_(" or ".join(sorted(map(showc, whole[i]))))), und)
            und.append("rejects")

    def default(self, f, k):
        """What a field holds when nothing was written to it: in the constructor of a compiled class its C default."""
        a = k[5:] if k.startswith("self.") else ""
        if f.name in ("__init__", "__cinit__") and a.isidentifier() and f.cls is not None:
            for c in f.cls.mro:
                if a in c.attr_ann:
                    t = types_of(c.attr_ann[a])
                    if t == "obj":
                        return frozenset([(atom("None"), E)])
                    if t == "num":
                        return frozenset([(frozenset(), E)])
        return initial_x(k)

    def routed(self, k):
        a = re.match(r"[\w:.]*", k).group(0).rsplit(".", 1)[-1]
        return a in ROUTE and self.pid not in ROUTE[a]

    def judge(self, r, f, tag, what, res, und):
        if res is None:
            return
        if res[0] == "undecided" or self.widened:
            und.append("%s (%s)" % (what, "too many paths" if self.widened else res[1]))
            return
        self.c.report("equation", "%s|%s" % (tag, what), getattr(f, "where", "?"), "%s: %s %s%s" % (
            tag, what, res[1], " [%s]" % r.why if r.why else ""))

    def params(self, name):
        """Parameter names of the methods of that name (when they agree)."""
        if name not in self._params:
            seen = {}
            for m in self.prog.modules.values():
                for c in m.classes.values():
                    f = c.methods.get(name)
                    if f is not None:
                        seen.setdefault(tuple(a.arg for a in f.node.args.args[1:]), 0)
            self._params[name] = max(seen, key=len) if seen else ()
        return self._params[name]

    def built(self, name):
        """Parameter names of the constructor of a class of that name."""
        for c in self.prog.by_name.get(name, []):
            for k in c.mro:
                f = k.methods.get("__init__")
                if f is not None:
                    ps = [a.arg for a in f.node.args.args[1:]]
                    if ps or not f.node.args.vararg:
                        return tuple(ps)
        return ()

    def edge_events(self, g):
        """Dependencies registered and removed: {(add/remove, child, parent): condition}, in order.
        ``a.children.add(b)`` and ``b.parents.add(a)`` are the same edge; a missing component (None)
        is never an edge."""
        out, order, bad = {}, [], []
        for e in g.evs:
            if e.kind != "call" or e.name not in ("add", "remove", "clear"):
                continue
            rv, args, kw = e.idx
            if kw or len(args) != (0 if e.name == "clear" else 1):
                continue
            for rp, rc in rv or ():
                rt = show(rp)
                if rt.startswith("new:GraphInterface"):
                    rt = next((a for a in sorted(e.recv) if a.endswith((".children", ".parents"))), rt)
                owner, dot, kind = re.sub(r"@\d+", "", rt).rpartition(".")
                if kind not in ("children", "parents") or not dot:
                    if "?" in rt and ("children" in rt or "parents" in rt):
                        bad.append(rt)
                    continue
                for ap, ac in (args[0] or [(None, frozenset())]) if args else [(atom("all"), frozenset())]:
                    if ap is None:
                        bad.append(rt)
                        continue
                    other = re.sub(r"@\d+", "", show(ap))
                    if other == "None" or owner == "None":
                        continue
                    cond = conj(conj(e.cond or TRUE, frozenset([rc])), frozenset([ac]))
                    cond = simplify(frozenset(exists(c, (owner, other)) for c in cond if exists(c, (owner, other)) is not None))
                    if not cond:
                        continue
                    key = (e.name,) + ((other, owner) if kind == "children" else (owner, other))
                    out[key] = disj(out.get(key, FALSE), cond)
                    order.append((key, cond, e))
        return out, order, bad

    def edges(self, r, f, tag, g1, g2, out, rout, und):
        a, order, bad = self.edge_events(g1)
        b, _, _ = self.edge_events(g2)
        ok = g1.pcof(out) if out is not None else TRUE
        ok2 = g2.pcof(rout) if rout is not None else TRUE
        self.c.count("edges_compared", len(b))
        for k in sorted(set(a) | set(b)):
            name = "%s of %s on %s" % ({"add": "dependency", "remove": "removal of the dependency", "clear": "clearing"}[k[0]], k[2], k[1])
            ga, gb = conj(a.get(k, FALSE), ok), conj(b.get(k, FALSE), ok)
            if equal_cond(ga, gb) is not False:
                continue
            if k in a and k in b and equal_cond(ga, ok) and equal_cond(conj(b[k], ok2), ok2):
                continue                        # whenever the function completes
            unk = set(WORD.findall(re.sub(r"'[^']*'", "", " ".join(list(k) + [showc(c) for c in ga])))) - self.words
            unk = {w for w in unk if not w.startswith("new")}
            if bad or unk or any("?" in q[1] + q[2] for q in a):
                und.append("edges: " + name)
                continue
            if not ga:
                m = "is never registered" if k[0] == "add" else "is never made"
            elif not gb:
                m = "must not be made"
            else:
                m = "is made when %s, must be made when %s" % (short_(" or ".join(map(showc, ga))), short_(" or ".join(map(showc, gb))))
            self.judge(r, f, tag, name, ("differs", m), und)
        # a component that is replaced by itself must stay registered
        for i, (k, c, e) in enumerate(order):
            for k2, c2, e2 in order[:i]:
                if k[0] != "add" and k2[0] == "add" and k[1:] != k2[1:] and (k[1] == "self" or k[2] == "self"):
                    self.judge(r, f, tag, "removal of the dependency of %s on %s" % (k[2], k[1]), (
                        "differs", "comes after the registration of %s: assigning the same component again loses it" % (k2[1] if k2[1] != "self" else k2[2])), und)

    def rebuilt(self, f):
        """Does a loader hand its constructor keywords that it put together in a dictionary?"""
        a = f.node.args
        doc = (a.posonlyargs + a.args)[-1].arg
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "cls" and any(
                    k.arg is None and not (isinstance(k.value, ast.Name) and k.value.id == doc) for k in x.keywords):
                return True
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == doc:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "setdefault") and \
                    isinstance(x.func.value, ast.Name) and x.func.value.id == doc:
                return True
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == doc:
                return True
        return False

    def calls(self, r, f, tag, g1, g2, und):
        if "cls" in r.calls and self.rebuilt(f) and not self.rebuilt(r):
            und.append("keywords put together beforehand")
            return

        def coll(g):
            out = {}
            bad = set()
            made = {}

            def name(t):
                t = re.sub(r"new:\w+@\d+", lambda m: made.get(m.group(0), m.group(0).split("@")[0]), t)
                return re.sub(r"\bnew:\d+", "new", t)
            for e in g.evs:
                if e.kind == "call" and e.name in r.calls + r.selfcalls or e.kind == "write" and e.name in r.sets:
                    rv, args, kw = e.idx
                    rv = lemmas(rv, True)
                    if rv is None and not e.recv and e.kind == "call":
                        rv = frozenset([(atom("-"), frozenset())])
                    rest = kw.get("**")
                    kw = {k: v for k, v in kw.items() if k != "**"}
                    if any(p.startswith("cls:") for p in e.recv) or (
                            e.kind == "call" and not e.name.startswith("super.") and (e.recv == frozenset(["self"])) != (e.name in r.selfcalls)):
                        continue
                    ps = ["value"] if e.kind == "write" else self.params(e.name) or self.built(e.name)
                    if "*" in kw and kw["*"] is None:
                        kw.pop("*")
                    if e.name == "cls":         # another instance of the class whose loader this is
                        ps = self.built(r.target.rsplit(".", 1)[-1])
                    bound = dict(zip(ps, args)) if len(args) <= len(ps) else dict(enumerate(args))
                    bound.update(kw)
                    if e.name == "cls":         # (an argument left out is the same as its default None)
                        bound = {k: v for k, v in bound.items() if v is None or showx(v) != "None"}
                    bound = {k: under(lemmas(v, True)) for k, v in bound.items()}
                    if e.name == "cls":
                        bound = {k: defaulted(v) for k, v in bound.items()}
                        if rest is not None and len(rest) == 1:     # (what the document brings along under the same name)
                            m = re.escape(show(next(iter(rest))[0]))
                            bound = {k: v for k, v in bound.items() if v is None or not re.match(
                                r"%s(\['%s'\]|\.(pop|get)\('%s'(, None)?\))$" % (m, k, k), showx(v))}
                    n = 1
                    for v in [rv] + list(bound.values()):
                        n *= len(v or ())
                    if not n or n > 16:
                        bad.add(e.name)
                        continue
                    ks = sorted(bound, key=str)
                    mine = {}
                    for combo in itertools.product(rv, *[bound[k] for k in ks]):
                        cond = e.cond or TRUE
                        for _, c in combo:
                            cond = conj(cond, frozenset([c]))
                        if not cond:
                            continue
                        key = name("%s.%s(%s)" % (show(combo[0][0]), e.name, ", ".join(
                            "%s=%s" % (k, show(p)) for k, (p, _) in zip(ks, combo[1:]))))
                        if e.name == "cls":     # (whether a key also leaves the document is judged by its leftover)
                            key = re.sub(r"\.pop\(('\w+')\)", r"[\1]", key)
                            key = re.sub(r"\.pop\(('\w+'), ", r".get(\1, ", key)
                        cond = frozenset(frozenset((name(l), b) for l, b in c) for c in cond)
                        mine[key] = disj(mine.get(key, FALSE), cond)
                    if e.kind == "call" and self.built(e.name):
                        made["new:%s@%s" % (e.name, getattr(e.node, "lineno", 0))] = "{%s}" % " | ".join(
                            sorted({k.split(".", 1)[1] for k in mine}))
                    for key, cond in mine.items():
                        if "??" in key or any("??" in l for c in cond for l, _ in c):
                            bad.add(e.name)
                        lst = out.setdefault(key, [])
                        for i, o in enumerate(lst):
                            if not feasible(conj(o, cond)):
                                lst[i] = simplify(o | cond)
                                break
                        else:
                            lst.append(cond)
            return out, bad
        a, bad = coll(g1)
        b, _ = coll(g2)
        self.c.count("calls_compared", len(b))
        if bad:
            und.append("calls to %s" % ", ".join(sorted(bad)))
            return
        def text(k, gs):
            return set(WORD.findall(re.sub(r"'[^']*'", "", " ".join([k] + [showc(c) for cs in gs for c in cs]))))
        known = self.words | {w for k, gs in b.items() for w in text(k, gs)}
        for k in sorted(set(a) | set(b)):
            ga, gb = a.get(k, []), b.get(k, [])
            unk = {w for w in text(k, ga) - known if not w.startswith("new")}
            if len(ga) == len(gb) and all(equal_cond(x, y) is not False for x, y in zip(sorted(ga, key=str), sorted(gb, key=str))):
                continue
            if unk or any(text(q, []) - known for q in a):
                und.append("call " + k[:60])
                continue
            if not ga:
                m = "is never made"
            elif not gb:
                m = "must not be made"
            elif len(ga) != len(gb):
                m = "is made %d times, must be made %d times" % (len(ga), len(gb))
            else:
                m = "is made when %s, must be made when %s" % (
                    short_("; ".join(" or ".join(map(showc, c)) for c in ga)), short_("; ".join(" or ".join(map(showc, c)) for c in gb)))
            self.judge(r, f, tag, "call " + k, ("differs", m), und)


NUMBERS = {"double", "int", "float", "long", "bint", "Py_ssize_t", "unsigned int", "size_t"}


def types_of(t):
    """num, obj, or None when a declared field has no known initial content."""
    if not isinstance(t, str):
        return None
    if t in NUMBERS:
        return "num"
    if t in ("object", "list", "dict", "str", "set", "tuple", "basestring", "bytes") or (t[:1].isupper() and t.isidentifier()):
        return "obj"
    return None
