"""Collects obligations of one check, writes the evidence file and decides the exit code."""
import json, os, re, sys, time
from .cxx import VERIF

def known_findings():
    """known_findings.txt:  known: property=C09 key=<rule>@<site> <what fails>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: out.append(m.groups())
    return out

class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []           # (rule, site, ok, detail)
        self.rules = {}
        self.analysed = {}
        self.assumptions = []
    def rule(self, name, text): self.rules[name] = text
    def ob(self, rule, site, ok, detail="", loc=""):
        self.obs.append((rule, site, bool(ok), str(detail), str(loc)))
        return bool(ok)
    def count(self, what, n=1): self.analysed[what] = self.analysed.get(what, 0) + n
    def finish(self, checkmod):
        from .cxx import AnalysisBroken
        minimum = getattr(checkmod, "MIN_OBLIGATIONS", {}).get(self.pid, 1) if not isinstance(getattr(checkmod, "MIN_OBLIGATIONS", 1), int) else getattr(checkmod, "MIN_OBLIGATIONS", 1)
        if len(self.obs) < minimum and all(o[2] for o in self.obs):
            raise AnalysisBroken(f"only {len(self.obs)} obligations were generated, at least {minimum} expected: the rule matches too few sites to mean anything")
        known = {(p, k): w for p, k, w in known_findings()}
        bad, kn = [], []
        for o in self.obs:
            if o[2]: continue
            key = (self.pid, f"{o[0]}@{o[1]}".replace(" ", "_"))
            (kn if key in known else bad).append((o, known.get(key)))
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"explanation": " ".join((checkmod.__doc__ or "").split()),
               "obligations": len(self.obs), "discharged": sum(1 for o in self.obs if o[2]),
               "rules": self.rules, "analysed": self.analysed,
               "per_rule": {r: [sum(1 for o in self.obs if o[0] == r and o[2]), sum(1 for o in self.obs if o[0] == r)] for r in dict.fromkeys(o[0] for o in self.obs)},
               "samples": [f"{o[0]}: {o[1]}: {o[3]}"[:300] for o in self.obs[:: max(1, len(self.obs) // 12)]][:14],
               "sites": sorted(set(o[1] for o in self.obs))[:400]}
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
                   "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)},
                  open(os.path.join(ev, f"{self.pid}.json"), "w"), indent=1)
        for (o, w) in {x[1]: x for x in kn}.values():
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        print(f"{self.pid}: {cov['discharged']}/{cov['obligations']} obligations discharged; analysed {self.analysed}")
        if bad:
            rp = os.path.join(ev, f"{self.pid}.replay.txt")
            with open(rp, "w") as f:
                for o, _ in bad:
                    f.write(f"rule: {o[0]}\n  {self.rules.get(o[0], '')}\nsite: {o[1]}\nwhere: {o[4]}\nwhat: {o[3]}\n\n")
            for o, _ in bad[:20]:
                print(f"  violated: {o[0]} at {o[1]} ({o[4]}): {o[3]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0
