"""C08  All solvers impose the same limits, costs and balances."""
import itertools
import re

from ..gvn import TRUE, FALSE, conj, disj, equal_cond, feasible, show, showc, simplify
from ..lp import EDITS, FailingLpGvn, LpGvn
from ..report import Check
from ..spec import SpecRunner, WORD, lemma, lemmas, prepare, short_, summarise, under

KINDS = EDITS + ["commit", "commit_all"]


class LpRunner(SpecRunner):
    """Compares the edits made to the linear programme with those of the reference."""

    def one(self, r):
        if not r.o.get("lp"):
            return super().one(r)
        ck = self.c
        f, cls = self.find(r)
        whole = "%s.%s" % (r.target, r.method)
        if f is None:
            ck.item("references without a function", whole)
            return
        reff = prepare(r.node, f)
        names = [a.arg for a in (r.node.args.posonlyargs + r.node.args.args)]
        if f.kind in ("method", "get", "set", "class", "del"):
            names = names[1:]
        make = FailingLpGvn if r.raises else LpGvn
        for case in r.cases:
            tag = whole + ("(%s)" % ", ".join("%s=%s" % kv for kv in sorted(case.items(), key=str)) if case else "")
            g1, cells, _, raised, out = summarise(self.prog, f, cls, names, r, case, make=make)
            g2, rcells, _, rraised, rout = summarise(self.prog, reff, cls, names, r, case, make=make)
            self.widened = bool(g1.notes or g2.notes)
            ck.count("functions_compared")
            und = []
            for k in (r.cells or "").split():
                if k in rcells:
                    ck.count("values_compared")
                    self.judge(r, f, tag, k, self.cmp.values(cells.get(k, self.default(f, k)), rcells[k]), und)
            self.edits(r, f, tag, g1, g2, und)
            if r.raises:
                ck.count("values_compared")
                q = equal_cond(raised, rraised)
                if q is False:
                    self.judge(r, f, tag, "rejects", ("differs", "raises when %s, must raise when %s" % (
                        short_(" or ".join(sorted(map(showc, raised))) or "never"),
                        short_(" or ".join(sorted(map(showc, rraised))) or "never"))), und)
                elif q is None:
                    und.append("rejects")
            ck.item("functions decided" if not und else "functions undecided", tag + (": " + ", ".join(map(str, und[:6])) if und else ""))

    def edits(self, r, f, tag, g1, g2, und):
        a, bad = collect(g1)
        b, rbad = collect(g2)
        self.c.count("edits_compared", sum(map(len, b.values())))
        known = set(self.words) | {"lp"}
        for t in [k[2] for k in b] + [showc(c) for cs in b.values() for x in cs for c in x]:
            known |= set(WORD.findall(re.sub(r"'[^']*'", "", t)))
        for key in sorted(set(a) | set(b)):
            ga, gb = a.get(key, []), b.get(key, [])
            kind, first, k = key
            if {(kind, None), (kind, first)} & (bad | rbad):
                t = "%s of %s" % (kind, first[-60:])
                if t not in und:
                    und.append(t)
                continue
            if len(ga) == len(gb) and all(equal_cond(x, y) is not False for x, y in zip(sorted(ga, key=str), sorted(gb, key=str))):
                continue
            text = " ".join([k] + [showc(c) for cs in ga for c in cs])
            unk = set(WORD.findall(re.sub(r"'[^']*'", "", text))) - known
            if {w for w in unk if not w.startswith("new")} or "??" in text or "~" in text:
                und.append("edit %s (%s)" % (k[:60], ", ".join(sorted(unk - {w for w in unk if w.startswith("new")})[:3]) or "text"))
                continue
            if not ga:
                m = "is never made"
            elif not gb:
                m = "must not be made"
            elif len(ga) != len(gb):
                m = "is made %d times, must be made %d times" % (len(ga), len(gb))
            else:
                m = "is made when %s, must be made when %s" % (
                    short_("; ".join(" or ".join(map(showc, c)) for c in ga)), short_("; ".join(" or ".join(map(showc, c)) for c in gb)))
            self.judge(r, f, tag, k, ("differs", m), und)


def name(t):
    return re.sub(r"acc:\w+@\d+", "acc", lemma(t))


def relevant(cube):
    """A case without the facts that the lists worked through are not empty and that the library reported no error."""
    out = set()
    for l, b in cube:
        if l.startswith("raises("):
            if b:
                return None
            continue
        if not b and re.match(r"^len\(.*\) == 0$", l) or b and re.match(r"^(bool\()?(each|sorted|table|S\b|arg:model\.(find_all_routes|scenarios))", l) \
                and " " not in re.sub(r"\(.*\)|\[.*\]", "", l):
            continue
        if l == "-len(table) < 0":          # rows for a table that is empty
            if not b:
                return None
            continue
        out.add((name(l), b))
    return frozenset(out)


def collect(g):
    out, bad = {}, set()
    added = {e.val for e in g.evs if e.kind == "call" and e.name == "contribution"}
    for e in g.evs:
        if e.kind != "call" or e.name not in KINDS:
            continue
        if e.name == "assignment" and e.val is not None and e.val in added:
            continue                    # the first contribution to a key
        rv, args, kw = e.idx
        vs = [under(lemmas(v)) for v in [rv] + list(args) + [kw[k] for k in sorted(kw)]]
        n = 1
        for v in vs:
            n *= len(v or ())
        if not n or n > 400:
            for p, _ in (args and under(lemmas(args[0])) or [(None, None)]):
                bad.add((e.name, name(show(p)) if p is not None and e.name in EDITS else None))
            continue
        mine = {}
        for combo in itertools.product(*vs):
            cond = e.cond or TRUE
            for _, c in combo:
                cond = conj(cond, frozenset([c]))
            cond = simplify({relevant(c) for c in cond} - {None})
            if not cond:
                continue
            first = name(show((combo[1:] or combo)[0][0]))
            key = e.name, first, "%s(%s)" % (e.name, ", ".join(name(show(p)) for p, _ in (combo[1:] if e.name in EDITS else combo)))
            mine[key] = disj(mine.get(key, FALSE), cond)
        for key, cond in mine.items():
            if "??" in key[2] or any("??" in l for c in cond for l, _ in c):
                bad.add(key[:2])
                continue
            lst = out.setdefault(key, [])
            for i, o in enumerate(lst):
                if not feasible(conj(o, cond)):
                    lst[i] = simplify(o | cond)
                    break
            else:
                lst.append(cond)
    return out, bad


class C08(Check):
    id = "C08"
    technique = ("gated value numbering of the solvers with native calls as effects (entries, bounds, costs, right sides of the linear "
                 "programme) compared with reference equations")
    explanation = (
        "Every native call with which a solver edits its linear programme (rows and columns added, types and values of "
        "bounds, costs, entries of the matrix, right sides) is an effect with symbolic arguments: which component's "
        "getter in which scenario, at which row, under which condition, over which lists. Work arrays are followed from "
        "allocation to the call that hands them over, so an entry that is not set, set twice or beyond the length passed "
        "shows up as a hole; dictionaries that collect coefficients are followed as contributions to their keys. The "
        "edits of setup, reset and each time step of all three solvers (GLPK over routes, GLPK over edges, lpsolve), the "
        "flows committed to the nodes afterwards, the lists of components the rows are made for, and the helpers that "
        "turn limits into bounds and reject NaN are compared with reference equations.")
    assumptions = [
        "The reference equations in sa/refs/lp.py state the intended programme; GLPK and lp_solve solve what they are given.",
        "Lists a row is made for are not empty where the reference makes the row; library calls report no error.",
        "Values are compared over the reals.",
    ]
    level_note = ("Equality of all edits of the programme with the reference, for every model structure, parameter value and scenario. That the "
                  "optimum the library finds is feasible and optimal to its tolerance is outside the source analysed.")

    def run(self):
        LpRunner(self, self.id).run()
        self.floor("functions_compared", 6)


CHECK = C08
