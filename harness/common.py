"""Evidence, known findings, verdicts."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            ln = ln.strip()
            if ln.startswith("{"):
                d = json.loads(ln)
                if d.get("property") == prop and d.get("status") == "finding":
                    out.append(d)
    return out


class Report:
    """Collects what a check saw and turns it into output, evidence and an exit code."""

    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.viol = []          # (key, text, replay object)
        self.cov = {}
        self.samples = []
        self.assume = []
        self.level = "model_checking"

    def add(self, cov):
        """adds up the counts of the parts of a check"""
        for k, v in cov.items():
            if isinstance(v, bool) or not isinstance(v, (int, list)):
                self.cov[k] = v
            else:
                self.cov[k] = self.cov[k] + v if k in self.cov else v

    def violation(self, key, text, replay):
        """key: tuple identifying what failed, compared with the known findings"""
        self.viol.append((tuple(str(k) for k in key), text, replay))

    def finish(self):
        known = {tuple(f["key"]): f for f in findings(self.prop)}
        hit, new = {}, {}
        for key, text, rep in self.viol:
            k = next((kk for kk in known if len(kk) <= len(key) and key[:len(kk)] == kk), None)
            if k is not None:
                hit.setdefault(k, text)
            else:
                new.setdefault(key, (text, rep))
        for k in known:
            if k in hit:
                print(f"KNOWN-FINDING: property={self.prop} {known[k]['what']}")
        rc = 0
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        vs = []
        for n, (key, (text, rep)) in enumerate(sorted(new.items())):
            if n >= 20:
                break
            path = os.path.join(EVID, "replay", f"{self.prop}_{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "what": text, "case": rep}, f, default=str)
            print(f"VIOLATION property={self.prop} replay={path}")
            print("   " + text[:400])
            vs.append({"key": list(key), "what": text[:500], "replay": path})
            rc = 1
        cov = {"kind": "model_checking", **self.cov, "samples": self.samples[:12]}
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assume, "violations": len(new)}
        if vs:
            ev["violation_list"] = vs
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop} {self.tier}: {len(new)} violation(s), {len(hit)} known finding(s), {ev['wall_s']} s, {json.dumps({k: v for k, v in self.cov.items() if not isinstance(v, (list, dict))})}")
        sys.stdout.flush()
        return rc
