from vlib import build, run, poly as P, weil as W, work
from vlib.verdict import Check
def variants(r, x, k, surface=False):
    """k other presentations of the same hypersurface: (name, f, options)"""
    n, d, p, f = x["n"], x["d"], x["p"], x["f"]; out = []; T = P.tuples(d, n + 1)
    def perm():
        s = list(range(n + 1)); r.shuffle(s); return {tuple(u[i] for i in s): c for u, c in f.items()}
    def scale(): c = r.randrange(2, p) if p > 2 else 1; return {u: c * v for u, v in f.items()}
    def diag():
        c = [r.randrange(1, p) for _ in range(n + 1)]; g = {}
        for u, v in f.items():
            for i in range(n + 1): v = v * pow(c[i], u[i], p)
            g[u] = v % p
        return g
    def zeros():
        g = dict(P.clean(f, p)); 
        for u in r.sample(T, min(len(T), r.randint(1, 6))): g.setdefault(u, r.choice([0, p, -p, 3 * p, p * p, -10 ** 25 * p]))
        return g
    def sparse_lin():
        M = [[int(i == j) for j in range(n + 1)] for i in range(n + 1)]; i, j = r.sample(range(n + 1), 2); M[i][j] = r.randrange(1, p); return P.subst(f, M, p)
    kinds = {"linear": lambda: work.linear(r, x), "elementary": sparse_lin, "permutation": perm, "scaling": scale, "torus": diag, "lift": lambda: P.any_lift(r, f, p), "big lift": lambda: P.any_lift(r, f, p, True), "zero terms": zeros, "no zero terms": lambda: P.clean(f, p), "as is": lambda: dict(f)}
    names = ["permutation", "scaling", "torus", "zero terms"] if surface else list(kinds)
    r.shuffle(names)
    for i in range(k):
        nm = names[i % len(names)]; out.append((nm, kinds[nm](), {"better": r.randrange(2) if not surface else 1, "seed": r.randrange(1 << 30)}))
    return out
def main():
    ck = Check("P03", rule="groups of presentations of one hypersurface (linear substitutions, permutations, scalings, lifts, terms divisible by p, model search on/off); nontrivial when two different presentations of a group were both evaluated; distinct by (base equation, presentation kind, search flag)")
    B = build.build("plain", ["zeta"])["zeta"]; r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    groups = [(x, variants(r, x, 5)) for x in work.curves(r, ck.scale(170, 4000), 3, ok(3, 5, 101))]
    groups += [(x, variants(r, x, 4)) for x in work.curves(r, ck.scale(24, 400), 4, ok(4, 3, 43))]
    groups += [(x, variants(r, x, 4)) for x in work.large(r, ck.scale(30, 400), ck.scale(5, 60), 0, 20000, d3=1000)]
    groups += [(x, variants(r, x, 4)) for x in work.curves(r, ck.scale(1, 16), 5, ok(5, 3, 13))]
    k3 = [x for x in work.curves(r, 60, 4, [7, 11, 13], ["diag"], n=3) if x["nd"] and len(P.clean(x["f"], x["p"])) <= 6]
    groups += [(x, variants(r, x, 2, True)) for x in k3[:ck.scale(1, 8)]]
    if not ck.quick:
        groups += [(x, variants(r, x, 3)) for x in work.curves(r, 3, 4, [5, 11, 23], ["dense"], n=3)]
    cases = []; cost = {}
    for g, (x, vs) in enumerate(groups):
        for j, (nm, f, kw) in enumerate([("base", x["f"], {"better": 1, "seed": 1})] + vs):
            c = run.case(f"g{g}.{j}", "zeta", p=x["p"], **kw, **P.fkv(f)); cases.append(c); cost[c[0]] = work.cost(x["n"], x["d"], x["p"])
    res = run.run(B, cases, cpu=ck.scale(120, 3000), cost=lambda c: cost[c[0]], mem=8000); by = {c[0]: c for c in cases}
    for g, (x, vs) in enumerate(groups):
        base = res[f"g{g}.0"]; lab = f"n={x['n']} d={x['d']} p={x['p']} ({x['fam']})"
        if not base.ok: ck.crashed(by[f"g{g}.0"], base, lab + ": no zeta function"); ck.observe()
        for j, (nm, f, kw) in enumerate(vs):
            z = res[f"g{g}.{j+1}"]
            if not z.ok: ck.crashed(by[f"g{g}.{j+1}"], z, f"{lab} presented by {nm}: no zeta function"); ck.observe(); continue
            if not base.ok: continue
            ck.observe((tuple(sorted(x["f"].items())), x["p"], nm, kw["better"])); ck.count("presentation: " + nm); ck.count("search on" if kw["better"] else "search off")
            if z["zeta"] != base["zeta"]: ck.violation("presentation:" + nm, f"{lab}: zeta function {base['zeta']} becomes {z['zeta']} for another presentation ({nm}, {kw})", [by[f"g{g}.0"], by[f"g{g}.{j+1}"]])
            elif r.random() < .01: ck.sample(f"{lab} {nm}: {z['zeta']} twice")
    return ck.finish(need=ck.scale(300, 4000))
