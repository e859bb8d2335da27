"""Mutation survey: changes one construct at a time in a copy of the sources and asks every check about it.
mutate.py [-n PER_FUNCTION] [-s SEED] [-p PROCS] FILE[:REGEX] ...   prints the changes no check reports.
Not registered in MANIFEST.json: it shows where the checks see nothing."""
import concurrent.futures as cf
import glob
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import tokenize
import hashlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SKIP = re.compile(r"raise |logger|warn|print\(|import |assert |__repr__|except|^\s*(try|else|finally|pass|return None)\b|@|cdef (int|double|bint|[A-Z]\w*) [\w, ]+$")


def functions(src):
    """(name, first body line, last line) of each function, 0-based."""
    lines = src.split("\n")
    out, stack = [], []
    i = 0
    instr = None
    code = [False] * len(lines)
    for i, l in enumerate(lines):
        s = l.strip()
        if instr:
            if instr in s:
                instr = None
            continue
        m = re.match(r'^[rRuUbB]*("""|\'\'\')', s)
        if m:
            if s.count(m.group(1)) < 2:
                instr = m.group(1)
            continue
        if not s or s.startswith("#"):
            continue
        code[i] = True
    cls = []
    for i, l in enumerate(lines):
        if not code[i]:
            continue
        ind = len(l) - len(l.lstrip())
        cls = [c for c in cls if c[0] < ind]
        m = re.match(r"\s*(?:cdef\s+)?(?:class|property)\s+(\w+)", l)
        if m:
            cls.append((ind, m.group(1)))
            continue
        m = re.match(r"\s*(?:async\s+)?(?:def|cpdef|cdef)\s+(?:[\w\[\]:*, .]+?\s+)?(\w+)\s*\(", l)
        if m and "=" not in l.split("(")[0]:
            j = i
            depth = 0
            while j < len(lines):
                depth += lines[j].count("(") - lines[j].count(")") + lines[j].count("[") - lines[j].count("]")
                if depth <= 0 and lines[j].split("#")[0].rstrip().endswith(":"):
                    break
                j += 1
            k = j + 1
            last = j
            while k < len(lines):
                if code[k] and len(lines[k]) - len(lines[k].lstrip()) <= ind:
                    break
                if code[k]:
                    last = k
                k += 1
            name = ".".join([c[1] for c in cls] + [m.group(1)])
            out.append((name, [x for x in range(j + 1, last + 1) if code[x]]))
            cls.append((ind, m.group(1)))
    return lines, out


OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\*(?=\w)", "/"), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "),
       (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" is not None", " is None"), (r" is None", " is not None"),
       (r" and ", " or "), (r" or ", " and "), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
       (r"\bnot ", ""), (r" \+= ", " = "), (r" -= ", " += "), (r"\[i\]", "[0]"), (r"\[i, ?j\]", "[i, 0]"), (r"\bmin_", "max_"), (r"\bmax_", "min_"),
       (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "0.0"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"global_id", "global_id-1"),
       (r"\* ?ts\.days", "")]


def mutants(src, rx, per, rnd):
    lines, fs = functions(src)
    for name, body in fs:
        if rx and not re.search(rx, name):
            continue
        cands = []
        for i in body:
            l = lines[i]
            if SKIP.search(l) or re.match(r"\s*(cdef|cpdef|def|class)\b", l) and "=" not in l:
                continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + b + l[m.end():]
                    if n != l and l[:m.start()].count('"') % 2 == 0 and l[:m.start()].count("'") % 2 == 0:
                        cands.append((i, n))
            s = l.strip()
            if s.count("(") == s.count(")") and s.count("[") == s.count("]") and not s.endswith(":") and not s.endswith(",") and \
                    not s.endswith("\\") and not re.match(r"(return|yield|\)|\]|\}|cdef)", s) and \
                    (re.match(r"[\w.\[\]:, ]+ ?[-+*/]?= ", s) or re.match(r"[\w.\[\]]+\(.*\)$", s)):
                cands.append((i, l[:len(l) - len(l.lstrip())] + "pass"))
        rnd.shuffle(cands)
        # drop first, and different lines
        seen, sel = set(), []
        for c in cands:
            if c[0] not in seen:
                seen.add(c[0])
                sel.append(c)
        for c in cands:
            if c not in sel:
                sel.append(c)
        for i, n in sel[:per]:
            yield name, i, lines[i].strip(), n.strip(), "\n".join(lines[:i] + [n] + lines[i + 1:])


def worker(d, ids):
    import importlib
    from sa.program import Program, AnalysisBroken
    out = {}
    try:
        prog = Program()
    except Exception as e:
        print(json.dumps({"parse": ["%s" % e]}))
        return
    for pid in ids:
        try:
            c = importlib.import_module("sa.checks.%s" % pid.lower()).CHECK(prog, "quick")
            c.run()
            out[pid] = sorted(c.findings)
        except AnalysisBroken as e:
            out[pid] = ["BROKEN"]
        except Exception as e:
            out[pid] = ["ERROR %r" % e]
    print(json.dumps(out))


def copy(repo):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    for ext in ("py", "pyx", "pxd", "pxi"):
        for f in glob.glob(repo + "/pywr/**/*." + ext, recursive=True):
            t = os.path.join(d, os.path.relpath(f, repo))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy(f, t)
    for f in ("setup.py", "pyproject.toml"):
        shutil.copy(os.path.join(repo, f), d)
    return d


def ask(d, ids):
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--worker", d] + ids, cwd=HERE, capture_output=True, text=True,
                       env=dict(os.environ, PYWR_SA_REPO=d), timeout=600)
    try:
        return json.loads(r.stdout.splitlines()[-1])
    except Exception:
        return {"crash": [r.stderr[-300:]]}


def main():
    a = sys.argv[1:]
    if a and a[0] == "--worker":
        return worker(a[1], a[2:])
    per, seed, procs = 6, 1, 7
    while a and a[0].startswith("-"):
        o = a.pop(0)
        v = a.pop(0)
        if o == "-n":
            per = int(v)
        elif o == "-s":
            seed = int(v)
        elif o == "-p":
            procs = int(v)
    ids = os.environ.get("IDS", "").split() or [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    repo = os.environ.get("PYWR_SA_REPO", "/repo")
    base_d = copy(repo)
    base = ask(base_d, ids)
    shutil.rmtree(base_d)
    rnd = random.Random(seed)
    jobs = []
    if a and a[0].endswith(".json"):
        for f, name, i, old, new in json.load(open(a[0])):
            src = open(os.path.join(repo, "pywr", f)).read().split("\n")
            k = i if i < len(src) and src[i].strip() == old else next((n for n, l in enumerate(src) if l.strip() == old), None)
            if k is None:
                continue
            ind = src[k][:len(src[k]) - len(src[k].lstrip())]
            jobs.append((f, name, k, old, new, "\n".join(src[:k] + [ind + new] + src[k + 1:])))
        a = []
    for spec in a:
        f, _, rx = spec.partition(":")
        src = open(os.path.join(repo, "pywr", f)).read()
        for m in mutants(src, rx, per, rnd):
            jobs.append((f,) + m)

    def one(j):
        f, name, i, old, new, text = j
        d = copy(repo)
        try:
            open(os.path.join(d, "pywr", f), "w").write(text)
            r = ask(d, ids)
        except subprocess.TimeoutExpired:
            r = {"timeout": ["x"]}
        finally:
            shutil.rmtree(d)
        return j, sorted(p for p in r if set(r[p]) - set(base.get(p, ())))
    caught = 0
    left = []
    by = {}
    with cf.ThreadPoolExecutor(procs) as ex:
        for j, by_ in ex.map(one, jobs):
            f, name, i, old, new, text = j
            for p in by_:
                by[p] = by.get(p, 0) + 1
            if by_:
                caught += 1
            else:
                left.append((f, name, i, old, new))
                print("MISSED %s:%d %s | %s  =>  %s" % (f, i + 1, name, old[:90], new[:90]), flush=True)
    json.dump(left, open("/tmp/mutants_left.json", "w"))
    print("%d of %d reported; by check %s" % (caught, len(jobs), json.dumps(by, sort_keys=True)))


if __name__ == "__main__":
    main()
