import math, time
from vlib import build, run, poly as P, work, prec as D
from vlib.verdict import Check
from vlib.reuse import Patched
ENV = {"MALLOC_ARENA_MAX": "1", "GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "OMP_WAIT_POLICY": "passive"}
def judge(ck, binary, cases, res, pid):
    """what the allocator has handed out must come to rest; a suspicion is confirmed on four times as many repetitions"""
    sus = []
    for c in cases:
        z = res.get(c[0])
        if z is None or not z.ok or "held" not in z: ck.count("not measured: " + pid); continue
        h = [int(t) for t in z["held"].split()]; k = len(h)
        if k < 16: ck.count("too slow to repeat: " + pid); continue
        ck.observe((pid, c[1], c[0])); ck.count("repetitions", k); ck.count("command " + c[1])
        if growth(h, c): sus.append(c)
    done = {}
    for c in sus:
        key = c[1] + ":" + (c[2].get("methods") or c[2].get("impl") or c[2].get("via") or "")
        if done.get(key, 0) >= 3: continue
        done[key] = done.get(key, 0) + 1; confirmed = False
        for times, sec in ((4, ck.scale(8, 60)), (16, ck.scale(30, 120))): # a growth that dies down is given more time, a steady one is reported
            c4 = (c[0], c[1], dict(c[2], leaksec=sec, leak=max(200, int(c[2]["leak"]) * times))); z = run_plain(binary, [c4], cpu=3000, mem=0, retry=False, env=ENV)[c[0]]
            if not z.ok: break
            h = [int(t) for t in z["held"].split()]
            if len(h) < 60: ck.inconclusive.append(f"{key}: growth, but only {len(h)} repetitions possible for confirmation"); break
            if not persistent(h): ck.count("settled later"); break
            if steady(h): confirmed = True; break
        if confirmed: ck.violation("growth:" + key, f"{c[1]} ({pid} workload) repeated {len(h)} times holds {h[len(h) // 2]} bytes after half of them and {h[-1]} at the end, {(h[-1] - h[len(h) // 2]) / (len(h) - len(h) // 2):.0f} more per repetition: {str({a: b for a, b in c[2].items()})[:500]}", [c4], "# held after each repetition: " + " ".join(map(str, h[:400])))
def growth(h, c): return h[-1] > h[len(h) // 2]
def persistent(h):
    """growth in every one of the last three quarters, at no less than 8 bytes per repetition: pools that fill once, and the randomised parts of FLINT, do not do that"""
    k = len(h); q = [h[k // 4 - 1], h[k // 2 - 1], h[k * 3 // 4 - 1], h[-1]]; return all(b > a for a, b in zip(q, q[1:])) and q[3] - q[1] >= 8 * (k // 2)
def steady(h):
    """a leak grows as fast at the end as before; pools whose elements move between threads grow ever slower"""
    k = len(h); return h[-1] - h[k * 3 // 4 - 1] >= .85 * (h[k // 2 - 1] - h[k // 4 - 1])
REUSE = {"P08": (.04, .3), "P10": (.08, .5), "P11": (.08, .5), "P13": (.02, .2), "P14": (.3, .5), "P15": (.02, .3), "P16": (.05, .5), "P17": (.08, .5), "P18": (.08, .5), "P19": (.004, .05), "P20": (.08, .5), "P21": (.03, .3), "P24": (.06, .2)}
run_plain = run.run
class Repeated(Patched):
    def execute(self, go, binary, cases, k):
        cost = k.get("cost") if self.pid not in ("P11", "P12", "P13", "P14", "P15", "P16") else None; e = dict(ENV); e.update(k.get("env") or {}); k["env"] = e; new = []
        for c in cases:
            s = cost(c) if cost else .05
            kv = dict(c[2], leaksec=self.ck.scale(1, 30), leak=max(16, min(self.ck.scale(40, 400), int(self.ck.scale(1.5, 20) / max(s, 1e-3))))); new.append((c[0], c[1], kv))
        res = go(binary, new, **k); judge(self.ck, binary, new, res, self.pid); return res
def main():
    ck = Check("P26", rule="one computation repeated up to some hundred times in one process, for every algorithm, option, thread count, entry point and helper; the bytes handed out by the allocator (glibc's exact count, one arena, no thread caches) after each repetition must come to rest; nontrivial: every distinct computation measured",
               assumptions=["memory held by the FLINT and NTL pools counts as held once the pools grow"])
    B = build.build("plain", ["zeta", "core", "lin", "prod", "tools"]); r = ck.rng; cases = {b: [] for b in B}; cost = {}
    K = ck.scale(80, 800)
    def add(b, name, cmd, k, s=.05, **kw):
        cases[b].append(run.case(name, cmd, leaksec=ck.scale(4, 60), leak=max(12, min(K, int(ck.scale(.8, 30) / s))), **dict(kw, **k))); cost[name] = s * int(cases[b][-1][2]["leak"])
    xs = work.curves(r, ck.scale(7, 60), 3, P.primes(5, 41)) + work.curves(r, ck.scale(2, 20), 4, [3, 5, 7, 11, 13]); 
    xs += [x for x in work.curves(r, 40, 3, P.primes(5, 13), ["degenerate", "sparse"]) if not x["nd"]][:ck.scale(3, 12)]
    for i, x in enumerate(xs):
        n, d, p = x["n"], x["d"], x["p"]; k = dict(p=p, **P.fkv(x["f"])); s = work.cost(n, d, p)
        for t in (1, 1, 3):
            for b in (0, 1) if x['d'] == 3 or t > 1 else (1,): add("zeta", f"z{i}.{len(cases['zeta'])}", "zeta", k, s, seed=3, threads=t, better=b, via=r.choice(["map", "string", "vecint", "vecZZ"]))
        if p >= 17: add("zeta", f"a{i}", "zeta", k, s * 2, seed=3, abs=2, inc=i % 2)
        clss = ["J", "ND"] if x["nd"] else ["J"]
        for cls in clss:
            N = [r.randint(1, 2), r.randint(1, 3)]; pr = D.precision_for(2, p, N)
            for m in ["J", "Jc", "JZ0", "JZ1", "JZ2", "Jp0", "Jp1", "Jp2"] + (["ND", "NF", "NDc", "NZ0", "NZ1", "NZ2", "Np0", "Np1"] if cls == "ND" else []):
                if d == 4 and r.random() < .7: continue
                t = r.choice([1, 1, 1, 3]) if m in ("J", "ND") else 1
                add("core", f"f{i}.{cls}.{m}", "frob", k, s, N=P.vec(N), prec=pr, cls=cls, methods=m, maxcols=4, threads=t, ctor=r.choice(["mapZ", "mapz", "vecZ", "vecz"]))
                if m in ("J", "ND") and d == 3: add("core", f"F{i}.{cls}.{m}", "frob", k, s * 1.3, N=P.vec(N), prec=max(pr, int(130 / math.log2(p)) + 1), cls=cls, methods=m, maxcols=4, threads=r.choice([2, 3])) # entries of several words
            if d == 3: add("core", f"w{i}.{cls}", "walks", k, .05, seed=3, trials=2, maxm=3, big=30, cls=cls, prec=4)
            us = P.mons(r.sample([tuple(a + 1 for a in u) for u in P.tuples(d * 2 - 3, 3)], 4)); add("core", f"c{i}.{cls}", "coords", k, s, cls=cls, prec=pr, us=us, everything=1)
        add("core", f"s{i}", "smooth", k, .02); add("core", f"v{i}", "fcov", k, .05, seed=5, tries=50)
    def go(b):
        res = run.run(B[b], cases[b], cpu=3000, mem=0, env=ENV, cost=lambda c: cost.get(c[0], .1), chunk=3, retry=False)
        for c in cases[b]:
            if not res[c[0]].ok: ck.crashed(c, res[c[0]], "a repeated computation")
        judge(ck, B[b], cases[b], res, "own")
    go("zeta"); ck.extra["seconds own zeta"] = round(time.time() - ck.t0, 1); go("core"); ck.extra["seconds own"] = round(time.time() - ck.t0, 1); t = time.time()
    for pid in REUSE:
        t1 = time.time(); Repeated(ck, pid, (REUSE[pid][0] if ck.quick else REUSE[pid][1]), "plain", ck.scale(.3, 30)).main(); ck.extra.setdefault("seconds per reused workload", {})[pid] = round(time.time() - t1, 1)
    ck.extra["seconds in reused workloads"] = round(time.time() - t, 1)
    ck.sample(f"{cases['zeta'][0][1:]}: at rest")
    return ck.finish(need=ck.scale(600, 2000))
