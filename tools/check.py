#!/usr/bin/env python3
"""Runs the checks: check.py ID... [--thorough] [--all]. Exit 0: held. 1: violated. 2: no answer."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from extract import VERIF
from ir import Prog
from props import PROPS

# rules about things that a configuration leaves out
NOT_IN = {"plain": ("D03", "L01", "L02", "L03", "L04", "L05", "B01"), "unbounded": ("B01",), "cycle": ("B01",), "mongo": ("B01",)}
BYID = {p["id"]: p for p in PROPS}
_progs = {}


def prog(config):
    config = extract.ALIAS.get(config, config)
    if config not in _progs: _progs[config] = Prog(extract.extract(config))
    return _progs[config]


class Report:
    """Collects obligations, violations and measured coverage of one check."""
    def __init__(self, pid, thorough):
        self.pid, self.thorough = pid, thorough
        self.obligations = 0
        self.prefix = ""         # configuration, in a thorough run
        self.viol = {}           # key -> (message, site)
        self.counts = {}
        self.functions = set()
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.externals = {}

    def rule(self, text):
        if text not in self.rules: self.rules.append(text)

    def count(self, name, n=1): self.counts[self.prefix + name] = self.counts.get(self.prefix + name, 0) + n

    def ok(self, cond, key, msg, site=None):
        """One obligation. A false condition is a violation identified by key (no line numbers)."""
        self.obligations += 1
        key = self.prefix + key
        if not cond and key not in self.viol:
            self.viol[key] = (msg, site)
        return bool(cond)

    def fail(self, key, msg, site=None): self.ok(False, key, msg, site)

    def floor(self, name, n, least):
        """Anchor count: fewer analysed instances than expected means the rule lost its subject."""
        self.counts[self.prefix + name] = n
        self.ok(n >= least, "coverage:" + name, "only %d %s found, expected at least %d: the rule's subject is gone" % (n, name, least))

    def sample(self, x):
        if len(self.samples) < 12: self.samples.append(x)

    def use(self, eng):
        self.functions |= eng.functions
        for k, v in eng.externals.items(): self.externals[k] = self.externals.get(k, 0) + v


def fmt_site(site):
    if not site: return "-"
    return "%s (%s:%s)" % (site[0], site[1], site[2])


def known(pid):
    """Findings recorded as present on the unchanged tree."""
    r = {}
    for line in open(os.path.join(VERIF, "FINDINGS.md")):
        m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", line.strip())
        if m and m.group(1) == pid: r[m.group(2)] = m.group(3)
    return r


def run(pid, thorough):
    t = time.time()
    rep = Report(pid, thorough)
    import rules
    f = rules.RULES[pid]
    f(rep)
    if thorough:
        # the same rule on the other ways the library can be built
        for config in ("plain", "unbounded", "cycle", "mongo"):
            if pid in NOT_IN.get(config, ()): continue
            rep.prefix = config + "/"
            extract.ALIAS["main"] = config
            try: f(rep)
            finally:
                rep.prefix = ""
                extract.ALIAS.clear()
    kn = known(pid)
    bad = {k: v for k, v in rep.viol.items() if k not in kn}
    for k in rep.viol:
        if k in kn: print("KNOWN-FINDING: property=%s %s" % (pid, kn[k] or k))
    expl = ("Rules: " + " ".join(rep.rules) + " Decided on the resolved MIR of the current tree; %d obligations over %d functions." % (rep.obligations, len(rep.functions)))
    ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": expl, "obligations": rep.obligations, "discharged": rep.obligations - len(rep.viol),
                       "functions_analysed": sorted({clean(x) for x in rep.functions})[:400], "counts": rep.counts, "samples": rep.samples,
                       "external_calls": dict(sorted(rep.externals.items())[:60])},
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
    if bad:
        d = os.path.join(VERIF, ".build", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + ".txt")
        with open(rp, "w") as fh:
            for k, (m, s) in bad.items(): fh.write("%s\n  %s\n  at %s\n" % (k, m, fmt_site(s)))
            fh.write("\nRe-run: bash ./check.sh %s\n" % pid)
        for k, (m, s) in list(bad.items())[:25]: print("%s: %s: %s [%s]" % (pid, fmt_site(s), m, k))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: held (%d obligations, %d functions, %.1fs)" % (pid, rep.obligations, len(rep.functions), time.time() - t))
    return 0


def clean(k): return k.split("|")[0]


def main(argv):
    ids = [a for a in argv if not a.startswith("-")]
    thorough = "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough"
    import rules
    if "--all" in argv: ids = [p["id"] for p in PROPS if p["id"] in rules.RULES]
    rc = 0
    for i in ids:
        try: r = run(i, thorough)
        except extract.BuildError as e:
            print("%s: no answer, the code could not be extracted: %s" % (i, e)); r = 2
        except Exception:
            traceback.print_exc(); print("%s: no answer" % i); r = 2
        rc = max(rc, r)
    return rc


if __name__ == "__main__": sys.exit(main(sys.argv[1:]))
