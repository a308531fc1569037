"""Verdicts, evidence and known findings."""
import os, sys, json, time, random, traceback
from . import build, run
if hasattr(sys, "set_int_max_str_digits"): sys.set_int_max_str_digits(0)
HERE = build.HERE
SEED = int(os.environ.get("VERIF_SEED", "1") or 1); TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
def known():
    out = []
    try:
        for l in open(HERE + "/known-findings.txt"):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l[8:].split() if "=" in x and x.split("=")[0] in ("property", "key")); f["line"] = l; out.append(f)
    except OSError: pass
    return out
class Check:
    current = None
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        Check.current = self; self.pid = pid; self.level = level; self.rule = rule; self.assumptions = list(assumptions); self.t0 = time.time()
        self.quick = TIER != "thorough"; self.rng = random.Random(f"{SEED}-{pid}"); self.n = 0; self.nontrivial = set(); self.samples = []; self.extra = {}; self.viol = {}; self.inconclusive = []; self.known = {k["key"]: k for k in known() if k["property"] == pid}; self.hit = set()
    def scale(self, q, t): return q if self.quick else t
    def observe(self, key=None, k=1):
        """one oracle decision; key identifies a distinct nontrivial observation"""
        self.n += k
        if key is not None: self.nontrivial.add(key if isinstance(key, (str, int, tuple)) else str(key))
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(str(s)[:600])
    def count(self, key, k=1): self.extra[key] = self.extra.get(key, 0) + k
    def violation(self, key, text, cases=(), extra=""):
        if key in self.known: 
            self.hit.add(key); return
        if key in self.viol: self.viol[key]["times"] += 1; return
        self.viol[key] = {"text": text, "cases": [run.line(c) for c in cases], "extra": extra, "times": 1}
    def crashed(self, c, r, what="the computation did not return"):
        """a supported case that did not come back"""
        tail = " | ".join(l for l in (r.err or "").strip().splitlines() if l.strip())[-700:]
        self.violation(f"{r.status}:{c[1]}", f"{what}: {r.status} (exit {r.rc}) on {c[1]} {c[0]}: {tail}", [c])
    def finish(self, need=1):
        os.makedirs(HERE + "/evidence", exist_ok=True); wall = time.time() - self.t0; bad = 0
        for k in sorted(self.known): 
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]['line']}" + ("" if k in self.hit else " (not met in this run)"))
        rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        for i, (k, v) in enumerate(sorted(self.viol.items())):
            path = f"{rdir}/{self.pid}-{i}.txt"
            with open(path, "w") as f: f.write(f"# property {self.pid}; {v['text']}\n# seed {SEED}, tier {TIER}; seen {v['times']} times; key {k}\n# feed the lines below to the harness binary (tab separated)\n" + "\n".join(v["cases"]) + "\n" + v["extra"] + "\n")
            if i < 20: print(f"VIOLATION property={self.pid} replay={path}\n  {v['text'][:1500]}")
            bad += 1
        cov = {"evaluations": self.n, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule, "samples": self.samples}; cov.update(self.extra)
        if self.inconclusive: cov["inconclusive"] = len(self.inconclusive); cov["inconclusive_samples"] = self.inconclusive[:5]
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": bad}
        with open(f"{HERE}/evidence/{self.pid}.json", "w") as f: json.dump(ev, f, indent=1)
        print(f"{self.pid}: {self.n} oracle decisions, {len(self.nontrivial)} distinct nontrivial, {bad} violations, {len(self.inconclusive)} inconclusive, {wall:.1f} s")
        if bad: return 1
        if len(self.nontrivial) < need:
            print(f"{self.pid}: too little observed ({len(self.nontrivial)} < {need}): inconclusive"); return 2
        return 0
