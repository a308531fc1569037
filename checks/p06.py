from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
def main():
    ck = Check("P06", rule="the same computation with one thread and with several, under the system's OpenMP runtime and under a scheduling runtime that permutes iterations, delays threads and serialises; nontrivial when a parallel region really ran on at least two threads; distinct by (equation, p, options, thread count, schedule)",
               assumptions=["OpenMP regions run on harness/gomp_shim.cc or libgomp; schedules are sampled, not enumerated"])
    Bp = build.build("plain", ["zeta", "core"]); Bs = build.build("sched", ["zeta", "core"]); r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    items = []
    def zet(xs, **kw):
        for x in xs:
            k = dict(kw)
            if x["n"] == 2 and x["p"] >= 17 and x["d"] == 3 and r.random() < .5: k["abs"] = r.randint(2, min(10 if x["p"] < 100 else 3, x["p"] - 6)); k["inc"] = r.randrange(2)
            k["better"] = r.choice([0, 0, 1]); items.append((x, "zeta", k))
    zet(work.curves(r, ck.scale(70, 1200), 3, ok(3, 5, 61))); zet(work.curves(r, ck.scale(16, 300), 4, ok(4, 3, 23))); zet(work.curves(r, ck.scale(2, 30), 5, ok(5, 3, 7))); zet(work.large(r, ck.scale(10, 120), ck.scale(2, 24), 0, ck.scale(3000, 12000), d3=300))
    zet([x for x in work.curves(r, 40, 4, [7], ["diag"], n=3) if x["nd"] and len(P.clean(x["f"], x["p"])) <= 5][:ck.scale(0, 3)])
    for x in work.curves(r, ck.scale(40, 600), 3, ok(3, 5, 43)) + work.curves(r, ck.scale(8, 100), 4, ok(4, 3, 13)):
        p = x["p"]; N = [r.randint(1, 5), r.randint(2, 6)]; items.append((x, "frob", {"N": P.vec(N), "prec": D.precision_for(2, p, N) + r.choice([0, 3, 20]), "cls": "ND" if x["nd"] and r.random() < .6 else "J", "methods": ""}))
        k = items[-1][2]; k["methods"] = " ".join(r.sample(["ND", "NDc", "NF"], 2)) if k["cls"] == "ND" else r.choice(["J", "Jc", "Jc J"])
    ref = []; cost = {}; var = []; idx = {}
    for i, (x, cmd, k) in enumerate(items):
        kw = dict(p=x["p"], **P.fkv(x["f"]), **k); c0 = work.cost(x["n"], x["d"], x["p"]) * (1 + k.get("abs", 0) / 3)
        if cmd != "frob": kw["seed"] = 11 + i
        ref.append(run.case(f"r{i}", cmd, threads=1, **kw)); cost[f"r{i}"] = c0
        for j in range(ck.scale(3, 8)):
            t = r.choice([2, 2, 3, 4, 5, 7, 8, 16]); nm = f"v{i}.{j}"; var.append((r.randrange(4 if c0 < 6 else 3), run.case(nm, cmd, threads=t, **kw), i)); cost[nm] = c0 * 1.5
    def go(B, cs, **k):
        out = {}
        for b, cmd in (("zeta", "zeta"), ("core", "frob")): out.update(run.run(B[b], [c for c in cs if c[1] == cmd], cost=lambda c: cost[c[0]], cpu=ck.scale(120, 3000), mem=16000, **k))
        return out
    R = go(Bp, ref); seen = {}
    # schedules: shim modes with several seeds, then the real runtime
    groups = []
    for mode in range(4):
        for s in range(ck.scale(2, 8)): groups.append((f"shim mode {mode}", Bs, {"SHIM_MODE": str(mode), "SHIM_SEED": str(r.randrange(1 << 30))}))
    groups.append(("libgomp", Bp, {})); groups.append(("libgomp", Bp, {"OMP_WAIT_POLICY": "active", "OMP_DYNAMIC": "false"}))
    part = [[] for _ in groups]
    for q, (w, c, i) in enumerate(var): part[q % len(groups)].append((c, i))
    byref = {c[0]: c for c in ref}; sig = set()
    for (nm, B, env), cs in zip(groups, part):
        res = go(B, [c for c, i in cs], env=env, workers=4, chunk=6)
        for c, i in cs:
            z = res[c[0]]; x, cmd, k = items[i]; z0 = R[f"r{i}"]; lab = f"{cmd} n={x['n']} d={x['d']} p={x['p']} ({x['fam']}) threads={c[2]['threads']} {nm}"
            if not z0.ok: ck.crashed(byref[f"r{i}"], z0, lab + ": no single-threaded result"); continue
            if not z.ok: ck.crashed(c, z, lab + ": no result with several threads"); ck.observe(); continue
            multi = True
            if "sched" in z:
                s = z["sched"].split(); multi = int(s[0]) > 0 and int(s[4]) > 1
                ck.count("parallel regions", int(s[0])); ck.count("regions on several threads", int(s[1])); ck.count("iterations handed out", int(s[2])); sig.add((i, z["sched"]))
            ck.count(nm); ck.observe((i, nm, c[0]) if multi else None)
            for key in z0:
                if key == "sched": continue
                if z.get(key) != z0[key]:
                    ck.violation(f"{cmd}:{key}:{'J' if not x['nd'] or k.get('cls') == 'J' else 'ND'}", f"{lab}: {key} is {z.get(key)}, single-threaded {z0[key]}", [c, byref[f"r{i}"]], f"# environment {env}")
            if r.random() < .02: ck.sample(f"{lab}: identical; {z.get('sched', '')}")
    ck.extra["distinct schedule summaries"] = len(sig)
    return ck.finish(need=ck.scale(150, 1500))
