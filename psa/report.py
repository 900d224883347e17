"""Obligations, violations, evidence."""
import json
import os
import time


class Report:
    def __init__(self, prop, root, tier, seed):
        self.prop, self.root, self.tier, self.seed = prop, root, tier, seed
        self.t0 = time.time()
        self.obs = {}  # rule -> [n_ok, n_bad]
        self.desc = {}
        self.viol = []
        self.samples = []
        self.funcs, self.paths, self.cut, self.trunc, self.events = set(), 0, 0, 0, 0
        self.modules = set()
        self.assumptions = []
        self.notes = []
        self.minimum = {}
        self.suffix = ""  # the configuration under which the current obligations are judged

    def rule(self, rid, text, minimum=1):
        """declare a rule; at least `minimum` obligations must be generated for the analysis to count"""
        self.desc[rid] = text
        self.minimum[rid] = minimum
        self.obs.setdefault(rid, [0, 0])

    def ob(self, rid, ok, where, construct, msg=""):
        """one obligation: `construct` is the stable identity of what is judged (no line numbers)"""
        construct += self.suffix
        c = self.obs.setdefault(rid, [0, 0])
        if ok:
            c[0] += 1
            if c[0] <= 2:
                self.samples.append({"rule": rid, "discharged": construct, "where": str(where)})
        else:
            c[1] += 1
            v = {"rule": rid, "construct": construct, "where": str(where), "message": msg}
            if not any(x["rule"] == rid and x["construct"] == construct for x in self.viol):
                self.viol.append(v)
        return ok

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def absorb(self, I):
        """account for an interpreter's work"""
        self.funcs |= I.functions
        self.paths += I.npaths
        self.cut += I.cut
        self.trunc += I.truncated
        self.modules |= set(I.p.consulted)

    def known(self):
        path = os.path.join(self.root, "known_findings.json")
        if not os.path.exists(path):
            return []
        with open(path) as f:
            return [e for e in json.load(f)["findings"] if e.get("property") == self.prop and e.get("status") == "open"]

    def finish(self):
        """-> exit code; prints the verdict lines and writes the evidence file"""
        for rid, m in self.minimum.items():
            n = sum(self.obs[rid])
            if n < m:
                self.ob(rid, False, "-", "coverage of rule %s" % rid,
                        "the construct this rule judges was found %d time(s), expected at least %d: the code the property is anchored in no "
                        "longer does what the rule looks for" % (n, m))
        known = self.known()
        new, old = [], []
        for v in self.viol:
            k = [e for e in known if e["rule"] == v["rule"] and e["construct"] == v["construct"]]
            (old if k else new).append(v)
        for v in old:
            print("KNOWN-FINDING: property=%s %s: %s (%s)" % (self.prop, v["rule"], v["construct"], v["message"]))
        evd = os.path.join(self.root, "evidence")
        os.makedirs(evd, exist_ok=True)
        replay = os.path.join(evd, "%s.violations.txt" % self.prop)
        if new:
            with open(replay, "w") as f:
                for v in new:
                    f.write("property  %s\nrule      %s: %s\nconstruct %s\nwhere     %s\nwhy       %s\n\n" % (
                        self.prop, v["rule"], self.desc.get(v["rule"], ""), v["construct"], v["where"], v["message"]))
        elif os.path.exists(replay):
            os.remove(replay)
        n_ok = sum(c[0] for c in self.obs.values())
        n = sum(sum(c) for c in self.obs.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source (%d functions, %d abstract paths). Every obligation below was "
                               "generated from the source on this run and judged by the rule named." % (len(self.funcs), self.paths),
                "obligations": n, "discharged": n_ok, "violations_new": len(new), "violations_known": len(old),
                "functions_analysed": len(self.funcs), "abstract_paths": self.paths, "loop_cuts": self.cut, "paths_truncated": self.trunc,
                "modules": sorted(self.modules), "functions": sorted(self.funcs),
                "rules": [{"rule": r, "text": self.desc.get(r, ""), "obligations": sum(c), "discharged": c[0]} for r, c in sorted(self.obs.items())],
                "samples": self.samples[:40],
            },
            "assumptions": self.assumptions,
            "violations": [{"rule": v["rule"], "construct": v["construct"], "where": v["where"], "message": v["message"]} for v in new],
            "wall_s": round(time.time() - self.t0, 3),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        with open(os.path.join(evd, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for v in new[:20]:
            print("  [%s] %s @ %s: %s" % (v["rule"], v["construct"], v["where"], v["message"]))
        if self.trunc:
            raise SystemExit("analysis truncated (%d paths dropped)" % self.trunc)
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        print("OK property=%s obligations=%d functions=%d paths=%d" % (self.prop, n, len(self.funcs), self.paths))
        return 0
