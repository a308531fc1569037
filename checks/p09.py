from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
def main():
    ck = Check("P09", rule="random admissible reduction paths from random pole orders, each compared with the directly computed class; every implementation of one step and of k equal steps compared with the product of the step matrices; nontrivial when at least one path ending was compared; distinct by (equation, p, precision, class, seed)")
    B = build.build("plain", ["core"])["core"]; r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    xs = [(x, 6, 5, 60) for x in work.curves(r, ck.scale(420, 6000), 3, ok(3, 5, 53))] + [(x, 3, 3, 20) for x in work.curves(r, ck.scale(60, 800), 4, ok(4, 3, 31))] + [(x, 2, 2, 0) for x in work.curves(r, ck.scale(4, 40), 5, ok(5, 3, 11))]
    xs += [(x, 4, 3, 400) for x in work.curves(r, ck.scale(10, 100), 3, ok(3, 101, 3000))]
    xs += [(x, 2, 1, 0) for x in work.curves(r, ck.scale(2, 20), 4, [3, 5, 7, 11], ["diag", "inv"], n=3)]
    cases = []; cost = {}; meta = {}
    for i, (x, trials, maxm, big) in enumerate(xs):
        for cls in (["J", "ND"] if x["nd"] and x["n"] == 2 and x["d"] < 5 else [r.choice(["J", "ND"]) if x["nd"] else "J"]):
            f = x["f"] if r.random() < .5 else P.any_lift(r, x["f"], x["p"], r.random() < .5)
            c = run.case(f"w{i}.{cls}", "walks", p=x["p"], prec=r.choice([1, 2, 3, 5, 9, 30] + D.word_precisions(x["p"], 1, (31, 32, 62, 63, 64, 65))), cls=cls, ctor=r.choice(["mapZ", "mapZ", "vecZ", "mapz"]), trials=trials, maxm=maxm, big=big, huge=4 if x["d"] < 5 else 1, seed=r.randrange(1 << 31), **P.fkv(f)); cases.append(c); meta[c[0]] = x; cost[c[0]] = work.cost(x["n"], x["d"], x["p"]) * (0.3 if x["n"] == 3 else 1)
    res = run.run(B, cases, cpu=ck.scale(120, 3000), cost=lambda c: cost[c[0]], mem=8000)
    for c in cases:
        z = res[c[0]]; x = meta[c[0]]; lab = f"n={x['n']} d={x['d']} p={x['p']} precision={c[2]['prec']} class {c[2]['cls']} ({x['fam']})"
        if not z.ok: ck.crashed(c, z, lab + ": a reduction did not return"); ck.observe(); continue
        n = int(z["compared"]); ck.observe(c[0] if n else None, n + int(z["variants"]) + int(z["polys"]))
        for k in ("steps", "compared", "variants", "polys"): ck.count({"compared": "path endings compared", "steps": "reduction steps", "variants": "single steps through another implementation", "polys": "k steps at once"}[k], int(z[k]))
        ck.extra["deepest pole order"] = max(ck.extra.get("deepest pole order", 0), int(z["longest"]))
        if z["bad"].strip():
            first = z["bad"].split(";")[0].split(" ")[0]; ck.violation(f"{c[2]['cls']}:{first}", f"{lab}: {z['bad'][:500]}", [c])
        if r.random() < .03: ck.sample(f"{lab}: {z['steps']} steps, {n} endings agree")
    st = [(x, cls) for x in work.curves(r, ck.scale(16, 300), 3, ok(3, 5, 53)) + work.curves(r, ck.scale(2, 30), 4, [3, 5, 7]) for cls in (("J", "ND") if x["nd"] else ("J",))]
    st = [(run.case(f"s{i}", "selftest", p=x["p"], prec=r.choice([1, 2, 5, 30]), cls=cls, ctor=r.choice(["mapZ", "vecZ", "mapz"]), trials=2 if x["d"] < 4 else 1, N=2 if x["d"] < 4 else 1, seed=i + 1, **P.fkv(x["f"])), x) for i, (x, cls) in enumerate(st)]
    res = run.run(B, [c for c, _ in st], cpu=ck.scale(120, 3000), cost=lambda c: 1)
    for c, x in st:
        z = res[c[0]]; lab = f"n={x['n']} d={x['d']} p={x['p']} precision={c[2]['prec']} class {c[2]['cls']} ({x['fam']})"; ck.observe(c[0]); ck.count("the library's own tests")
        if not z.ok: ck.crashed(c, z, lab + ": the library's own test did not return")
        elif z["paths"] != "1" or z["basis"] != "1": ck.violation("own test:" + c[2]["cls"], f"{lab}: the library's own test of paths says {z['paths']}, of basis forms {z['basis']}", [c])
    return ck.finish(need=ck.scale(150, 2000))
