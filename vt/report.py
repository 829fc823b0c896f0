"""Obligations, violations, evidence and exit status of one check run."""
import os, sys, json, time, traceback
from front import VERIF, Broken

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


class Report(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.viol = {}
        self.nobl = 0
        self.cov = {}
        self.samples = []
        self.assume = []
        self.fns = set()
        self.expl = ""

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def obl(self, ok, key, where="", why="", path=None):
        """one obligation; key identifies function+rule+construct and is stable under line moves"""
        self.nobl += 1
        if ok:
            if len(self.samples) < 400:
                self.samples.append("%s @ %s" % (key, where) if where else key)
            return True
        if key not in self.viol:
            self.viol[key] = {"construct": key, "where": where, "why": why, "path": path or []}
        return False

    def need(self, what, n, at_least):
        """the rule must still have something to talk about"""
        self.cov["anchors:" + what] = n
        if n < at_least:
            raise Broken("%s: only %d instance(s) of %s found, %d confirmed when the rule was written" % (self.prop, n, what, at_least))

    def finish(self, level, technique):
        kn = known(self.prop)
        new, old = [], []
        for k, v in sorted(self.viol.items()):
            m = [w for key, w in kn if key == k]
            (old if m else new).append((k, v, m[0] if m else ""))
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
              "coverage": dict(self.cov, explanation=self.expl, technique=technique, obligations=self.nobl,
                               functions_analysed=len(self.fns), functions=sorted(self.fns)[:400],
                               obligations_listed=self.samples),
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new),
              "assumptions": self.assume}
        if new:
            ev["coverage"]["violating_constructs"] = [v for _, v, _ in new][:60]
        if old:
            ev["coverage"]["known_findings"] = [k for k, _, _ in old]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(ev, open(path, "w"), indent=1, sort_keys=True)
        for k, v, w in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w or k))
        print("%s: %d obligations over %d functions, %d violation(s), %.1fs" % (self.prop, self.nobl, len(self.fns), len(new), time.time() - self.t0))
        if not new:
            return 0
        rp = os.path.join(VERIF, "evidence", self.prop + ".violation.json")
        json.dump([v for _, v, _ in new], open(rp, "w"), indent=1)
        for k, v, _ in new[:40]:
            print("  %s\n    at %s: %s" % (k, v["where"], v["why"]))
            if v["path"]:
                print("    path: " + " > ".join(v["path"][-14:]))
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1
