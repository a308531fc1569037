from math import factorial
from vlib import build, run, poly as P, weil as W, work
from vlib.verdict import Check
def rel(f, n, d, r, mmax):
    """a relation: [(coefficient, exponent vector)], kind; coordinates include the factor (m-1)!"""
    m = r.randint(1, mmax); k = r.random()
    def rnd(tot):
        b = [0] * (n + 1); act = [i for i in range(n + 1) if r.random() < .75] or [r.randrange(n + 1)]
        for _ in range(tot): b[r.choice(act)] += 1
        return tuple(b)
    one = lambda u: tuple(e + 1 for e in u)
    if k < .7 or m * d - (n + 1) < 0:
        b = rnd(m * d - n); i = r.randrange(n + 1); L = []
        for t, c in f.items():
            if t[i]: L.append((c * t[i], one(tuple(x + y - (j == i) for j, (x, y) in enumerate(zip(b, t))))))
        if b[i]: L.append((-b[i], one(tuple(x - (j == i) for j, x in enumerate(b)))))
        return L, f"exact form x_{i}"
    b = rnd(m * d - (n + 1)); return [(c, one(tuple(x + y for x, y in zip(b, t)))) for t, c in f.items()] + [(-m, one(b))], "multiplication by f"
def main():
    ck = Check("P10", rule="relations of cohomology (exact forms in every variable, multiplication by the equation) on random forms, and basis forms; nontrivial when some form in the relation has nonzero coordinates; distinct by (equation, p, precision, relation, algorithm)")
    B = build.build("plain", ["core"])["core"]; r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    xs = [(x, 5, 8) for x in work.curves(r, ck.scale(260, 4000), 3, ok(3, 5, 97))] + [(x, 3, 5) for x in work.curves(r, ck.scale(40, 600), 4, ok(4, 3, 53))] + [(x, 2, 3) for x in work.curves(r, ck.scale(5, 60), 5, ok(5, 3, 31))] + [(x, 2, 3) for x in work.curves(r, ck.scale(4, 40), 4, ok(4, 3, 31), ["diag", "inv", "sparse"], n=3)] + [(x, 2, 2) for x in work.curves(r, ck.scale(1, 10), 6, [5, 7, 11], ["diag", "inv"])]
    cases = []; meta = {}; cost = {}
    for i, (x, mmax, nrel) in enumerate(xs):
        n, d, p = x["n"], x["d"], x["p"]; f = x["f"] if r.random() < .4 else P.any_lift(r, x["f"], p, r.random() < .5); prec = r.choice([1, 2, 3, 6, 12, 40]); q = p ** prec
        rels = [rel(f, n, d, r, mmax) for _ in range(nrel)]; us = sorted({u for L, _ in rels for _, u in L}); cls = "ND" if x["nd"] and r.random() < .75 else "J"
        r.shuffle(us); c = run.case(f"c{i}", "coords", p=p, prec=prec, cls=cls, ctor=r.choice(["mapZ", "vecZ"]), everything=int(r.random() < .1 and d < 5 and n == 2), us="[" + " ".join(P.vec(u) for u in us) + "]", **P.fkv(f)); cases.append(c); meta[c[0]] = (x, rels, us, prec, cls, f); cost[c[0]] = work.cost(n, d, p) / (20 if n == 3 else 3) * (4 if c[2]["everything"] else 1)
    res = run.run(B, cases, cpu=ck.scale(120, 3000), cost=lambda c: cost[c[0]], mem=8000); second = []; m2 = {}
    for c in cases:
        z = res[c[0]]; x, rels, us, prec, cls, f = meta[c[0]]; n, d, p = x["n"], x["d"], x["p"]; q = p ** prec; lab = f"n={n} d={d} p={p} precision={prec} ({x['fam']})"
        if not z.ok: ck.crashed(c, z, lab + ": coordinates not computed"); ck.observe(); continue
        bas = [tuple(u) for u in P.pv(z["basis"])]; b = sum(W.hodge(n, d))
        if len(bas) != b or len(set(bas)) != b: ck.violation("basis", f"{lab}: basis of {len(bas)} elements, expected {b} distinct", [c]); continue
        ks = ["J"] + (["ND"] if cls == "ND" else [])
        for k in ks:
            co = {u: v for u, v in zip(us, P.pv(z[k]))}
            for L, kind in rels:
                tot = [0] * b; nz = False
                for a, u in L:
                    v = co[u]
                    if len(v) != b: ck.violation("length:" + k, f"{lab}: {len(v)} coordinates", [c]); break
                    nz = nz or any(v); tot = [(s + a * t) % q for s, t in zip(tot, v)]
                else:
                    ck.observe((c[0], k, kind, L[0][1]) if nz else None); ck.count(f"{k}: {kind.split(' x_')[0]}")
                    if any(tot): ck.violation(f"{k}:{kind}", f"{lab}: {k} coordinates of the {kind} relation {L[:6]}... sum to {tot} mod {p}^{prec}", [c])
            if any(not 0 <= t < q for v in co.values() for t in v): ck.violation("range:" + k, f"{lab}: coordinates not reduced", [c])
        if cls == "ND":
            ck.count("J equal ND", len(us)); 
            for u, a, e in zip(us, P.pv(z["J"]), P.pv(z["ND"])):
                ck.observe((c[0], "eq", u) if any(a) else None)
                if a != e: ck.violation("J/ND", f"{lab}: coordinates of {u}: J {a}, ND {e}", [c])
            if [tuple(u) for u in P.pv(z["basisND"])][0:1] and len(P.pv(z["basisND"])) != d ** n: ck.violation("basisND", f"{lab}: {len(P.pv(z['basisND']))} elements in the toric basis, expected {d ** n}", [c])
        kv = dict(c[2]); kv["us"] = "[" + " ".join(P.vec(tuple(e + 1 for e in u)) for u in bas) + "]"; s = run.case("b" + c[0], "coords", **kv); second.append(s); m2[s[0]] = (c[0], bas); cost[s[0]] = cost[c[0]] / 2
    R2 = run.run(B, second, cpu=ck.scale(120, 3000), cost=lambda c: cost[c[0]], mem=8000)
    for s in second:
        z = R2[s[0]]; cid, bas = m2[s[0]]; x, rels, us, prec, cls, f = meta[cid]; n, d, p = x["n"], x["d"], x["p"]; q = p ** prec; lab = f"n={n} d={d} p={p} precision={prec} ({x['fam']})"
        if not z.ok: ck.crashed(s, z, lab + ": coordinates of the basis not computed"); continue
        for k in ["J"] + (["ND"] if cls == "ND" else []):
            for j, (u, v) in enumerate(zip(bas, P.pv(z[k]))):
                m = (sum(u) + n + 1) // d; want = [factorial(m - 1) % q if t == j else 0 for t in range(len(bas))]; ck.observe((s[0], k, j)); ck.count("basis forms")
                if v != want: ck.violation(f"{k}:basis", f"{lab}: basis form {u} has {k} coordinates {v}", [s])
        if r.random() < .03: ck.sample(f"{lab}: {len(us)} forms, relations {[k for _, k in rels]} hold, basis normalised")
    return ck.finish(need=ck.scale(3000, 40000))
