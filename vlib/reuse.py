"""Runs the (scaled down, reseeded) workloads of other properties' checks in another setting."""
import importlib, math, os
from . import build, run, verdict
from .verdict import Check
RELATIVE = ("P11", "P12", "P13", "P14", "P15", "P16")  # checks whose cost function is not in seconds
class Patched:
    """with Patched(...): module.main() generates its workload smaller and with other random choices; every batch of cases goes through execute()"""
    def __init__(self, ck, pid, factor, variant, limit): self.ck = ck; self.pid = pid; self.factor = factor; self.variant = variant; self.limit = limit; self.current = None
    def execute(self, go, binary, cases, k): raise NotImplementedError
    def __enter__(self):
        self.saved = (Check.__init__, Check.scale, Check.finish, build.build, run.run); me = self
        def init(s, pid, *a, **k): me.saved[0](s, pid, *a, **k); s.rng.seed(f"{verdict.SEED}-{me.ck.pid}-{pid}"); me.current = s
        def scale(s, q, t): return max(1, math.ceil(q * me.factor)) if isinstance(q, int) else q
        def b(variant="plain", binaries=("zeta",), jobs=8): return me.saved[3](me.variant, binaries, jobs)
        def rr(binary, cases, **k):
            cases = list(cases); k = dict(k); k["cpu"] = 3000; k["mem"] = 0; k["retry"] = False; k.pop("keep_err", None); cost = k.get("cost")
            heavy = [c for c in cases if cost and me.pid not in RELATIVE and cost(c) > me.limit]; hv = {c[0] for c in heavy}; cases = [c for c in cases if c[0] not in hv]
            if heavy: me.ck.count(f"left out (cost): {me.pid}", len(heavy))
            res = me.execute(me.saved[4], binary, cases, k) if cases else {}
            for c in heavy: res[c[0]] = run.R(); res[c[0]].err = ""
            return res
        Check.__init__ = init; Check.scale = scale; Check.finish = lambda s, need=1: 0; build.build = b; run.run = rr; return self
    def __exit__(self, *a): Check.__init__, Check.scale, Check.finish, build.build, run.run = self.saved
    def main(self):
        m = importlib.import_module("checks." + self.pid.lower())
        with self:
            try: m.main(); Check.current = self.ck
            except (KeyError, IndexError, ZeroDivisionError, ValueError) as e: # an oracle that misses a case left out
                self.ck.count("oracles stopped early: " + self.pid)
                if os.environ.get("VERIF_DEBUG"): print("  ", self.pid, repr(e))
