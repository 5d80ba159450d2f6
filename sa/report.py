"""What a check covered and found."""
import json
import os
import re
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.ob = {}            # rule -> obligations examined
        self.viol = []          # (where, text)
        self.info = {}
        self.samples = []
        self.rule = []
        self.minima = []
        self.seen = set()

    def rules(self, *texts):
        self.rule += texts

    def count(self, what, n=1):
        self.ob[what] = self.ob.get(what, 0) + n

    def counts(self, d, prefix=""):
        for k, v in d.items():
            self.count(prefix + k, v)

    def fact(self, k, v):
        self.info[k] = v

    def sample(self, *xs):
        for x in xs:
            if len(self.samples) < 12:
                self.samples.append(str(x)[:400])

    def need(self, what, n):
        """the rule must have matched at least n instances, or the analysis is broken"""
        self.minima.append((what, n))

    def bad(self, where, text):
        k = (where, text)
        if k not in self.seen:
            self.seen.add(k)
            self.viol.append((where, text))

    # ---------------------------------------------------------------- output
    def evidence(self, broken=None):
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        obs = sum(self.ob.values())
        cov = {"explanation": "Static analysis of the current source; nothing of it is executed. Rules: " + " | ".join(self.rule),
               "obligations": obs, "discharged": max(0, obs - len(self.viol)),
               "instances": self.ob, "samples": self.samples, "analysed": self.info}
        if broken:
            cov["analysis_error"] = broken
        e = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
             "level": "other", "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
             "violations": len(self.viol)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)

    def replay(self):
        d = os.path.join(os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence"), "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + ".txt")
        with open(p, "w") as f:
            for w, t in self.viol:
                f.write("%s: %s\n" % (w, t))
        return p


def demangle_in(text):
    """readable function names in a report"""
    import subprocess
    try:
        return subprocess.run(["c++filt"], input=re.sub(r"@(_Z\w+)", r"\1", text), text=True, stdout=subprocess.PIPE).stdout
    except OSError:
        return text
