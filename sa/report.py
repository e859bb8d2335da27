"""Check harness: runs a rule over the program model, compares with the known findings,
writes evidence and the VIOLATION / KNOWN-FINDING lines."""
import importlib
import json
import os
import sys
import time
import traceback

from .program import AnalysisBroken, Program, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Finding:
    def __init__(self, rule, key, where, msg, path=None):
        self.rule, self.key, self.where, self.msg, self.path = rule, key, where, msg, path or []

    def ident(self):
        return "%s|%s" % (self.rule, self.key)


class Check:
    id = None
    technique = ""
    explanation = ""
    assumptions = []

    def __init__(self, prog, tier="quick"):
        self.prog, self.tier = prog, tier
        self.findings = {}
        self.counts = {}
        self.lists = {}
        self.notes = []

    def report(self, rule, key, where, msg, path=None):
        f = Finding(rule, key, where, msg, path)
        self.findings.setdefault(f.ident(), f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def item(self, name, what):
        self.lists.setdefault(name, set()).add(what)

    def floor(self, name, minimum):
        n = self.counts.get(name, len(self.lists.get(name, ())))
        if n < minimum:
            raise AnalysisBroken("%s: only %d instances of '%s' found, at least %d confirmed by reading: "
                                 "the analysis no longer sees the code it judges" % (self.id, n, name, minimum))

    def run(self):
        raise NotImplementedError

    def selftest(self):
        """Positive examples: must report on each run."""
        return 0


def known_findings(pid):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = dict(p.split("=", 1) for p in line[len("finding:"):].split("::")[0].split() if "=" in p)
            if parts.get("property") == pid:
                out[parts["key"]] = line.split("::", 1)[1].strip() if "::" in line else parts["key"]
    return out


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
        argv = [a for a in argv if a != "--thorough"]
    if "--setup" in argv:
        p = Program()
        print("parsed %d modules, %d files" % (len(p.modules), len(p.files)))
        return 0
    rc = 0
    for pid in argv:
        rc = max(rc, run_one(pid, tier))
    return rc


def run_one(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("sa.checks.%s" % pid.lower())
    if tier == "thorough":              # larger sets of cases, longer path conditions
        from . import gvn, interp, terms
        gvn.CAP, gvn.PCAP, terms.CAP = 400, 48, 40
    try:
        prog = Program()
        chk = mod.CHECK(prog, tier)
        chk.run()
        fired = chk.selftest()
    except AnalysisBroken as e:
        sys.stderr.write("ANALYSIS-BROKEN property=%s %s\n" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        sys.stderr.write("ANALYSIS-BROKEN property=%s internal error\n" % pid)
        return 2
    known = known_findings(pid)
    new, old = [], []
    for ident in sorted(chk.findings):
        f = chk.findings[ident]
        (old if ident.replace(" ", "_") in known else new).append(f)
    cov = {"explanation": chk.explanation.strip(), "analysed": dict(chk.counts)}
    cov["modules_parsed"] = len(prog.modules)
    cov["files_parsed"] = len(prog.files)
    for k, v in sorted(chk.lists.items()):
        cov["n_" + k] = len(v)
        cov[k] = sorted(v)[:400]
    if fired:
        cov["selftest_reports"] = fired
    cov["known_findings_seen"] = [f.ident() for f in old]
    if chk.notes:
        cov["notes"] = chk.notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(chk, "level", "other"),
          "coverage": cov, "assumptions": list(chk.assumptions), "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[f.ident().replace(" ", "_")]))
    if not new:
        print("OK property=%s %s" % (pid, json.dumps(chk.counts, sort_keys=True)))
        return 0
    rp = os.path.join(VERIF, "evidence", "replay", pid + ".txt")
    with open(rp, "w") as fh:
        for f in new:
            fh.write("%s\n  rule: %s\n  construct: %s\n  %s\n" % (f.where, f.rule, f.key, f.msg))
            for p in f.path:
                fh.write("    via %s\n" % p)
    for f in new:
        print("%s: [%s] %s: %s" % (f.where, f.rule, f.key, f.msg))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1
