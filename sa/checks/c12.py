"""C12  Relative file names and file checks work the same everywhere."""
import ast

from ..report import Check
from ..interp import V, NOK, E
from ..flow import functions
from ..pathtrace import PathTrace, DIR, FILE, STR
from ..families import component_classes

CONFIGS = [(False, None), (True, None), (False, DIR), (True, DIR)]
DOC_CONFIGS = CONFIGS + [(False, FILE), (True, FILE)]


def pathkey(q):
    """'doc[...]' part of a path string, or None"""
    i = q.find("doc[")
    return q[i:] if i >= 0 else None


class HashTrace(PathTrace):
    """Comparisons that involve the expected hash come out as ``match``."""
    def __init__(self, prog, match, cached):
        super().__init__(prog, False, None)
        self.match, self.cached = match, cached
        self.compared = []

    def cmp(self, e, l, op, r):
        for a, b in ((l, r), (r, l)):
            if any(q.startswith("arg:hash") for q in a.p | a.d) and isinstance(op, (ast.Eq, ast.NotEq)):
                self.compared.append((b, self.loc(e)))
                return self.match == isinstance(op, ast.Eq)
        return None

    def ex_Compare(self, e, st):
        r = super().ex_Compare(e, st)
        if len(e.ops) == 1:
            k = self.cmp(e, self.ev(e.left, st.copy()), e.ops[0], self.ev(e.comparators[0], st.copy()))
            if k is not None:
                return r.with_(k=k)
        return r


class C12(Check):
    id = "C12"
    technique = "configuration-wise abstract interpretation of every loader (file name absolute or not, base directory known or not)"
    explanation = ("Every function that reads a document is interpreted in each combination of: the file name is relative or absolute; "
                   "the model has no directory, or one. Constructors are followed, so it is known which name reaches a function that "
                   "opens a file or is kept for one that does. With a relative name and a known directory exactly the name below that "
                   "directory may arrive, otherwise exactly the name given. Model and MultiModel are interpreted with no path, with a "
                   "directory and with a document as path. Where a file of data is read, a comparison with each given checksum, of "
                   "the same file with the algorithm named, lies before it on every path and cannot be left early; the comparison "
                   "functions are interpreted with and without a match and with and without a remembered hash: without a match "
                   "they cannot return.")
    level_note = ("All loaders and all file-opening calls of the package are covered. Hash algorithms themselves and the file system "
                  "are taken from the standard library.")
    assumptions = ["the path given to a model exists", "hashlib computes the hashes it names and rejects unknown names"]

    def run(self):
        P = self.prog
        self.model = P.cls("_model.Model")
        self.multi = P.cls("model.MultiModel")
        self.openers = self.opened_attrs()
        seen = set()
        for fam, c in component_classes(P):
            f = c.find_method("load")
            if f is None or (f, c) in seen:
                continue
            seen.add((f, c))
            self.loader(f, c)
        for m in P.modules.values():
            if m.name.split(".")[0] != "pywr":
                continue
            for f in functions(m):
                if f.cls is None and any(a.arg == "data" for a in f.node.args.args) and any(a.arg == "model" for a in f.node.args.args):
                    self.loader(f, None)
        self.model_path()
        self.documents()
        self.hashing()
        self.floor("loaders", 100)
        self.floor("file_names", 5)
        self.floor("verified_reads", 2)

    # which attributes of a class are names of files it opens ------------------------------------------
    def opened_attrs(self):
        out = {}
        for fam, c in component_classes(self.prog):
            for f in {m: f for k in reversed(c.mro) for m, f in k.methods.items()}.values():
                if f.name in ("load", "__init__") or not self.mentions_open(f):
                    continue
                t = PathTrace(self.prog, False, None)
                t.run(f, c)
                for s in t.sinks:
                    for q in s.arg.p:
                        if q.startswith("self.") and q.count(".") == 1:
                            out.setdefault(c, {}).setdefault(q[5:], []).append((s.read, f.qual))
                            self.item("opened_attributes", "%s.%s" % (c.name, q[5:]))
        return out

    def mentions_open(self, f):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if nm in ("open", "open_file", "H5Store", "run_path", "File") or nm.startswith(("read_", "to_", "_open", "open")):
                    return True
        return False

    def trace(self, f, cls, isabs, base, keys, model_base=True):
        t = PathTrace(self.prog, isabs, base, keys)
        args = {}
        for a in f.node.args.args:
            if a.arg == "data":
                args[a.arg] = V(p=frozenset(["doc"]), d=frozenset(["doc"]))
            elif a.arg == "model":
                args[a.arg] = V(t=frozenset([("inst", t.model)]), p=frozenset(["arg:model"])) if model_base else \
                    V(t=frozenset([("none",)]), k=None)
            elif a.arg == "path":
                args[a.arg] = t.basev()
        ret, st = t.run(f, cls, args=args)
        return t

    def names(self, t):
        """(file name as it arrives, where, is it read, event) of everything opened or kept to be opened."""
        out = []
        for s in t.sinks:
            if any("doc[" in q for q in s.arg.p):
                out.append((frozenset(s.arg.p), s.ev.where if s.ev else "?", s.read, s.ev))
        for (c, attr), ps in t.stored.items():
            for k, attrs in self.openers.items():
                if attr in attrs and c is k and any("doc[" in q for q in ps):
                    out.append((frozenset(ps), "%s.%s" % (c.name, attr), all(r for r, _ in attrs[attr]), None))
        return out

    def loader(self, f, cls):
        self.count("loaders")
        t = self.trace(f, cls, False, None, ())
        keys = {pathkey(q) for ps, w, rd, ev in self.names(t) for q in ps} - {None}
        if not keys:
            return
        who = f.qual if cls is None else "%s.load" % cls.name
        for isabs, base in CONFIGS:
            t = self.trace(f, cls, isabs, base, keys)
            for ps, w, rd, ev in self.names(t):
                self.count("file_names")
                self.judge(who, f, ps, isabs, base, w)
                if rd and not isabs:
                    self.verified(who, f, t, ps, w, ev)

    def judge(self, who, f, ps, isabs, base, w):
        for k in sorted({pathkey(q) for q in ps} - {None}):
            want = k if isabs or base is None else "%s/%s" % (DIR, k)
            got = {q for q in ps if pathkey(q) == k or "doc[" not in q}
            if got != {want}:
                self.report("relative", "%s:%s" % (who, k), "%s:%d" % (f.module.name, f.node.lineno),
                            "%s: %s file name %s of the document, %s: the file opened (%s) is %s" %
                            (who, "absolute" if isabs else "relative", k,
                             "model without a directory" if base is None else "document in %s" % DIR if base == DIR else "path given is the document",
                             w, " or ".join(sorted(got - {want})) or "none"))

    # checksums -----------------------------------------------------------------------------------------
    def verified(self, who, f, t, ps, w, ev):
        self.count("verified_reads")
        at = "%s:%d" % (f.module.name, f.node.lineno)
        why = None
        ok = False
        pos = {id(e): i for i, e in enumerate(t.evs)}
        for e, args, kw in t.hashes:
            # names of the parameters of check_hash on the model or in the hashes module
            names = ["filename", "hash", "cache", "algorithm"] if len(args) > 2 and not self.on_model(e) else ["filename", "hash", "algorithm"]
            b = dict(zip(names, args))
            b.update(kw)
            fn, hs, al = b.get("filename"), b.get("hash"), b.get("algorithm")
            if fn is None or not (fn.p & ps):
                why = "the file verified is not the file read"
                continue
            if fn.p != ps:
                why = "the file verified (%s) is not the file read (%s)" % (sorted(fn.p), sorted(ps))
                continue
            hk = t.keys(hs) if hs is not None else set()
            if not any("checksum" in q for q in hk):
                why = "the hash compared is not the one given"
                continue
            if al is None or not any("checksum" in q for q in t.keys(al)):
                why = "the algorithm named with the checksum is not used"
                continue
            # one comparison for every entry
            lp = [x for x in e.loops if any("checksum" in q for q in x[1])] or \
                [x for x in e.loops]
            if not lp:
                why = "only one of the checksums given is compared"
                continue
            lid = lp[-1][0]
            if any(x.kind in ("break", "return") and any(y[0] == lid for y in x.loops) for x in t.evs):
                why = "the comparison can stop before the last checksum"
                continue
            if ev is not None and pos[id(e)] > pos.get(id(ev), 1 << 30):
                why = "the file is read before it is verified"
                continue
            extra = [g for g in e.guards if (ev is None or g not in ev.guards) and "checksum" not in g[0] and not self.about(g, ps, t)]
            if extra:
                why = "the comparison is made only if %s" % " and ".join(("" if p else "not ") + g for g, p in extra)
                continue
            ok = True
        if not ok:
            self.report("checksum", who, at, "%s reads the file named by %s (%s) %s" %
                        (who, sorted(ps), w, "although " + why if why else "without comparing the checksum given with it"))

    def on_model(self, e):
        return e.recv is not None and any("model" in q for q in e.recv)

    def about(self, g, ps, t):
        """A condition on there being a file name at all."""
        return any(pathkey(q) and pathkey(q) in g[0] for q in ps) or "'url'" in g[0] or "url" == g[0]

    # the directory of a model --------------------------------------------------------------------------
    def model_path(self):
        f = self.model.find_method("__init__")
        for base in (None, DIR, FILE):
            t = PathTrace(self.prog, False, base, ())
            args = {"path": t.basev()} if any(a.arg == "path" for a in f.node.args.args + f.node.args.kwonlyargs) else {}
            ret, st = t.run(f, self.model, args=args)
            got = t.stored.get((self.model, "path"), set())
            last = st.heap.get(("self", "path")) if st is not None else None
            got = self.last_store(t)
            self.count("model_paths")
            want = {"None"} if base is None else {DIR}
            if got != want:
                self.report("model_path", "Model.path:%s" % base, "%s:%d" % (f.module.name, f.node.lineno),
                            "Model given %s as path keeps %s as its directory" %
                            ("no path" if base is None else "a directory" if base == DIR else "a document", sorted(got)))

    def last_store(self, t):
        """The value left in self.path: the last store without a branch around it, and those after it."""
        out = set()
        for attr, b, val, w, guards in t.stores:
            if attr != "path" or self.model not in b.insts():
                continue
            v = set(val.p) if not (val.k is None) else {"None"}
            if not guards:
                out = v
            else:
                out |= v
        return out

    # Model / MultiModel documents ---------------------------------------------------------------------
    def documents(self):
        for cls in (self.model, self.multi):
            f = cls.find_method("load_from_dict")
            t = self.trace(f, cls, False, None, (), model_base=False)
            keys = {pathkey(q) for ps, w in self.doc_names(t, cls) for q in ps} - {None}
            self.count("document_file_keys", len(keys))
            for isabs, base in DOC_CONFIGS:
                t = self.trace(f, cls, isabs, base, keys, model_base=False)
                for ps, w in self.doc_names(t, cls):
                    self.count("file_names")
                    self.judge("%s.load_from_dict" % cls.name, f, ps, isabs, base, w)
                # and without a file name: the document is embedded
                t = self.trace(f, cls, isabs, base, (), model_base=False)
                for e in t.evs:
                    # the directory handed to the models made
                    if e.kind == "call" and any(x[0] == "cls" and self.model in x[1].mro or x[0] == "bound" and x[1].cls is not None
                                                and self.model in x[1].cls.mro and x[1].name in ("load", "load_from_dict") for x in e.val.t):
                        self.handed(cls, f, t, e, isabs, base)
        for cls in (self.model, self.multi):
            for name in ("load", "loads"):
                self.forward(cls, name)
        self.floor("document_file_keys", 2)

    def doc_names(self, t, cls):
        for s in t.sinks:
            if any("doc[" in q for q in s.arg.p):
                yield frozenset(s.arg.p), s.ev.where if s.ev else "?"
        for e in t.evs:
            if cls is self.multi and e.kind == "call" and e.name == "load" and e.args and \
                    any(x[0] in ("bound", "func") and x[1].cls is not None and self.model in x[1].cls.mro for x in e.val.t):
                ps = frozenset(q for q in e.args[0].p if not q.endswith("['data']"))
                if any("doc[" in q for q in ps):
                    yield ps, e.where

    def handed(self, cls, f, t, e, isabs, base):
        v = e.kw.get("path", V())
        if "path" not in e.kw and e.name in ("load", "load_from_dict") and len(e.args) > 2:
            v = e.args[2]
        self.count("paths_handed_on")
        ps = {q for q in v.p if q != "None"}
        named = {q for q in ps if "doc[" in q}
        plain = ps - named
        where = "%s:%d" % (f.module.name, f.node.lineno)
        data = not e.args or any(q.endswith("['data']") for q in e.args[0].p)
        if base is not None and data and not ps:
            self.report("handed", "%s:path" % cls.name, where, "%s makes a model without the directory of its document (%s)" % (cls.name, e.where))
        if plain - {base, DIR}:
            self.report("handed", "%s:path" % cls.name, where, "%s makes a model with %s as its directory" % (cls.name, sorted(plain)))
        for q in named if data else ():
            want = pathkey(q) if isabs or base is None else "%s/%s" % (DIR, pathkey(q))
            if q != want:
                self.report("relative", "%s:%s" % (cls.name, pathkey(q)), where,
                            "%s: the directory %s of the document is used as %s" % (cls.name, pathkey(q), q))

    def forward(self, cls, name):
        """load and loads hand the path on"""
        f = cls.find_method(name)
        t = PathTrace(self.prog, False, None, ())
        t.keep = t.keep | {"load_from_dict", "load", "loads"}
        args = {a.arg: V(p=frozenset(["arg:" + a.arg]), d=frozenset(["arg:" + a.arg])) for a in f.node.args.args}
        t.run(f, cls, args=args)
        n = 0
        for e in t.evs:
            if e.kind != "call" or e.name not in ("load", "loads", "load_from_dict") or "json" in ast.unparse(e.node.func):
                continue
            g = cls.find_method(e.name)
            names = [a.arg for a in g.node.args.args][1:]
            b = dict(zip(names, e.args))
            b.update(e.kw)
            n += 1
            self.count("paths_handed_on")
            v = b.get("path")
            opened = any(s.arg.p & {"arg:data"} for s in t.sinks)
            if v is None or not (v.p and v.p <= {"arg:path", "arg:data"}):
                self.report("handed", "%s.%s:%s" % (cls.name, name, e.name), e.where,
                            "%s.%s does not hand the path of the document on to %s" % (cls.name, name, e.name))
        if not n:
            self.report("handed", "%s.%s" % (cls.name, name), f.qual, "%s.%s loads nothing" % (cls.name, name))

    def whole(self, a):
        """The argument of update: read() without a size, or a name (taken to be one)."""
        return not isinstance(a, ast.Call) or not (a.args or a.keywords)

    # the comparison itself -----------------------------------------------------------------------------
    def hashing(self):
        P = self.prog
        m = P.func("pywr.hashes", "check_hash").module
        chk, comp = m.funcs["check_hash"], P.func("pywr.hashes", "compute_hash")
        at = "%s:%d" % (m.name, chk.node.lineno)
        for cached in (False, True):
            for match in (False, True):
                t = HashTrace(P, match, cached)
                t.keep = t.keep | {"compute_hash"}
                args = {a.arg: V(t=STR, p=frozenset(["arg:" + a.arg]), d=frozenset(["arg:" + a.arg])) for a in chk.node.args.args}
                if not cached:
                    args["cache"] = V(t=frozenset([("none",)]), k=None)
                else:
                    args["cache"] = V(t=frozenset([("dict", E)]), p=frozenset(["arg:cache"]), d=frozenset(["arg:cache"]), k=1)
                ret, st = t.run(chk, None, args=args)
                self.count("hash_cases")
                if not match and st is not None:
                    self.report("mismatch", "check_hash", at, "check_hash returns normally although the hash given differs (%s)" %
                                ("hashes remembered" if cached else "no hashes remembered"))
                if match and st is None:
                    self.report("mismatch", "check_hash:match", at, "check_hash never accepts a file")
                for b, w in t.compared:
                    dep = b.p | b.d
                    for need in ("arg:filename", "arg:algorithm"):
                        if need not in dep:
                            self.report("compared", "check_hash:%s" % need, w, "the hash compared does not depend on %s" % need[4:])
                if not t.compared:
                    self.report("mismatch", "check_hash:none", at, "check_hash compares nothing")
        # computing a hash: the whole file, with the algorithm named
        t = PathTrace(P, False, None, ())
        ret, st = t.run(comp, None)
        at = "%s:%d" % (m.name, comp.node.lineno)
        opened = [s for s in t.sinks if "arg:filename" in s.arg.p]
        if not opened:
            self.report("compute", "compute_hash:file", at, "compute_hash does not open the file it is given")
        if "arg:algorithm" not in (ret.d | ret.p):
            self.report("compute", "compute_hash:algorithm", at, "the hash computed does not depend on the algorithm named")
        for e in t.evs:
            part = e.kind == "call" and e.name == "update" and not e.loops and e.args and not self.whole(e.node.args[0])
            if (e.kind == "break" and all(g[0] == "True" for g in e.guards)) or part or (e.kind == "call" and e.name == "update" and e.args and
                    [g for g in e.guards if g[0] != "True" and not (ast.unparse(e.node.args[0]) in g[0] or any(q in g[0] for q in e.args[0].p))]):
                self.report("compute", "compute_hash:partial", e.where, "compute_hash may leave out part of the file")
        # the model hands on what it is given
        f = self.model.find_method("check_hash")
        t = PathTrace(P, False, None, ())
        t.keep = t.keep | {"check_hash"}
        t.run(f, self.model)
        calls = [e for e in t.evs if e.kind == "call" and e.name == "check_hash"]
        names = [a.arg for a in chk.node.args.args]
        if not any(not e.guards for e in calls):
            self.report("forward", "Model.check_hash", f.qual, "Model.check_hash does not always compare the hashes")
        for e in calls:
            b = dict(zip(names, e.args))
            b.update(e.kw)
            for k in ("filename", "hash", "algorithm"):
                if k not in b or ("arg:" + k) not in (b[k].p | b[k].d):
                    self.report("forward", "Model.check_hash:%s" % k, e.where, "Model.check_hash does not hand on %s" % k)


CHECK = C12
