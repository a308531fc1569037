from vlib import build, run, poly as P, weil as W, work
from vlib.verdict import Check
def main():
    ck = Check("P02", rule="smooth hypersurfaces of every family; nontrivial when the polynomial is not forced (at least one coefficient besides the two extreme ones is nonzero); distinct by (equation, p)",
               assumptions=["Hasse-Witt matrices come from an independent expansion of f^(p-1) (harness/oracle.cc)"])
    B = build.build("plain", ["zeta"])["zeta"]; r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    xs = work.curves(r, ck.scale(900, 20000), 3, ok(3, 5, 151)) + work.curves(r, ck.scale(120, 2000), 4, ok(4, 3, 61)) + work.curves(r, ck.scale(6, 150), 5, ok(5, 3, 23))
    xs += work.large(r, ck.scale(120, 2000), ck.scale(20, 300), ck.scale(1, 30), d3=1000)
    xs += work.curves(r, ck.scale(1, 40), 6, [5, 7, 11, 13], ["diag", "cyclic"])
    k3 = [x for x in work.curves(r, ck.scale(60, 100), 4, [7, 11, 13, 23, 43], ["diag"], n=3) if x["nd"]]
    xs += [x for x in k3 if len(P.clean(x["f"], x["p"])) == 5][:ck.scale(2, 12)] + k3[:ck.scale(0, 6)]
    if not ck.quick: xs += work.curves(r, 6, 4, [5, 11, 23, 29], ["dense", "inv"], n=3) + work.curves(r, 2, 7, [3, 5], ["diag"])
    def opts(x):
        """the options that must not matter"""
        n, d, p = x["n"], x["d"], x["p"]; k = {"better": r.randrange(2) if n == 2 else 1}
        if n == 2 and r.random() < .35 and {3: 5, 4: 11}.get(d, 17) <= p < (1000 if x["nd"] else 200):   # the default digits have to fit too
            top = min(9 if d == 3 else 5, p - 2 * n - 1)   # p at least 2n + largest number of digits
            if top >= 1: k.update(abs=r.randint(1, top), inc=1); ck.count("requested precision raised")
        if r.random() < .2: k["threads"] = r.choice([2, 3]); ck.count("several threads")
        return k
    cases = [run.case(f"z{i}", "zeta", p=x["p"], seed=r.randrange(1 << 30), **opts(x), **P.fkv(x["f"])) for i, x in enumerate(xs)]
    hw = [P.oline(f"h{i}", "hw", x["p"], 1, P.clean(x["f"], x["p"])) for i, x in enumerate(xs) if x["p"] * x["d"] <= (1000 if x["n"] == 2 else 60)]
    o = work.oracle(hw); cost = {c[0]: work.cost(x["n"], x["d"], x["p"], x["nd"]) for c, x in zip(cases, xs)}
    res = run.run(B, cases, cpu=ck.scale(120, 3000), cost=lambda c: cost[c[0]], mem=8000)
    for i, (x, c) in enumerate(zip(xs, cases)):
        z = res[c[0]]; lab = f"n={x['n']} d={x['d']} p={x['p']} ({x['fam']})"
        if not z.ok: ck.crashed(c, z, lab + ": no zeta function"); ck.observe(); continue
        cp = P.pv(z["zeta"]); bad = W.weil_shape(cp, x["n"], x["d"], x["p"])
        ck.observe((tuple(sorted(P.clean(x["f"], x["p"]).items())), x["p"]) if any(cp[1:-1]) else None); ck.count(f"n={x['n']} d={x['d']}")
        for b in bad: ck.violation("shape:" + b.split(" at ")[0].split(" degree")[0], f"{lab}: {b}: {cp}", [c])
        if not bad and f"h{i}" in o:
            v = o[f"h{i}"]; h = int(round(len(v) ** .5)); H = [v[k * h:(k + 1) * h] for k in range(h)]; want = [0] * (len(cp) - 1 - h) + W.charpoly_mod(H, x["p"]); ck.count("compared with Hasse-Witt")
            if any((a - b) % x["p"] for a, b in zip(cp, want)): ck.violation("hasse-witt", f"{lab}: {cp} is not congruent to {want} mod {x['p']}", [c])
        if ck.rng.random() < .02: ck.sample(f"{lab}: {cp}")
    return ck.finish(need=ck.scale(500, 5000))
