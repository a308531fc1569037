from vlib import build, run, poly as P, weil as W, work
from vlib.verdict import Check
def frob(z):
    return P.pv(z["frob"])
def main():
    ck = Check("P04", rule="one equation at a requested precision a and at higher ones, with both settings of the flag; nontrivial when the matrix at precision a is nonzero modulo p^a; distinct by (equation, p, a, flag)")
    B = build.build("plain", ["zeta"])["zeta"]; r = ck.rng
    groups = []
    # (d, primes, largest request)
    plan = [(3, [p for p in P.primes(17, 47)], 10, ck.scale(40, 600)), (3, P.primes(53, 97), 6, ck.scale(10, 200)), (3, P.primes(29, 61), 16, ck.scale(3, 60)), (4, P.primes(17, 31), 4, ck.scale(8, 120)), (4, P.primes(17, 23), 7, ck.scale(2, 30))] + ([] if ck.quick else [(5, [17, 19], 6, 4)])
    for d, ps, amax, cnt in plan:
        for x in work.curves(r, cnt, d, ps):
            top = min(amax, x["p"] - 4); 
            if top < 2: continue
            hi = r.randint(2, top) if r.random() < .5 else top
            lows = sorted(set(r.randint(1, hi) for _ in range(3)))
            groups.append((x, hi, [(a, inc) for a in lows for inc in ((0, 1) if d == 3 else (r.randrange(2),))]))
    for x in work.large(r, ck.scale(16, 200), ck.scale(2, 24), 0, 20000 if not ck.quick else 2000, d3=300):
        hi = r.randint(2, 12 if x["d"] == 3 else 4); groups.append((x, hi, [(a, i) for a in sorted({r.randint(1, hi), r.randint(1, hi)}) for i in (0, 1)]))
    if ck.quick or True: # surfaces: a request that keeps p >= 2n + r
        k3 = [x for x in work.curves(r, 40, 4, [13, 17, 19, 23] if ck.quick else [13, 17, 23, 29], ["diag"], n=3) if x["nd"] and len(P.clean(x["f"], x["p"])) <= 5]
        groups += [(x, 3, [(2, 0), (1, 0)]) for x in k3[:ck.scale(1, 4)]]
    # so many digits that the coefficients of the expansion pass one machine word
    for x in work.fermat(r, ck.scale(1, 6), 3, [67, 71, 73, 79]): groups.append((x, r.randint(66, min(72, x["p"] - 5)) if x["p"] > 70 else 62, [(r.randint(60, 62), 0), (r.randint(20, 59), 1)]))
    cases = []; cost = {}
    for g, (x, hi, reqs) in enumerate(groups):
        for nm, kw in [("hi", {"abs": hi, "inc": 1})] + [("plain", {})] + [(f"{a}.{i}", {"abs": a, "inc": i}) for a, i in reqs]:
            if x["n"] == 3 and nm == "hi": kw = {"abs": hi, "inc": 0}
            c = run.case(f"g{g}.{nm}", "zeta", p=x["p"], better=0, seed=7, threads=1, **kw, **P.fkv(x["f"])); cases.append(c)
            cost[c[0]] = work.cost(x["n"], x["d"], x["p"]) * (1 + kw.get("abs", 1) ** 2 / 4)
    res = run.run(B, cases, cpu=ck.scale(150, 3000), cost=lambda c: cost[c[0]], mem=8000); by = {c[0]: c for c in cases}
    for g, (x, hi, reqs) in enumerate(groups):
        p = x["p"]; lab = f"n={x['n']} d={x['d']} p={p} ({x['fam']})"
        ids = [f"g{g}.hi", f"g{g}.plain"] + [f"g{g}.{a}.{i}" for a, i in reqs]; dead = [k for k in ids if not res[k].ok]
        for k in dead: ck.crashed(by[k], res[k], f"{lab}: no answer"); ck.observe()
        if dead: continue
        H = frob(res[f"g{g}.hi"]); true = P.pv(res[f"g{g}.plain"]["zeta"])
        if x["n"] == 2 and P.pv(res[f"g{g}.hi"]["zeta"]) != true: ck.violation("zeta-raised", f"{lab}: zeta {true} becomes {res[f'g{g}.hi']['zeta']} with requested precision {hi}", [by[f"g{g}.hi"], by[f"g{g}.plain"]])
        for a, i in reqs:
            z = res[f"g{g}.{a}.{i}"]; F = frob(z); q = p ** a; b = len(F); c2 = [by[f"g{g}.{a}.{i}"], by[f"g{g}.hi"]]; ck.count("flag on" if i else "flag off"); ck.count(f"a={a}")
            same = len(F) == len(H) and all(len(u) == len(v) and all((s - t) % q == 0 for s, t in zip(u, v)) for u, v in zip(F, H))
            ck.observe((tuple(sorted(x["f"].items())), p, a, i) if any(e % q for row in F for e in row) else None)
            if not same: ck.violation(f"digits:{'on' if i else 'off'}", f"{lab}: requested {a} digits (flag {i}) but the matrix differs mod p^{a} from the one at {hi} digits: {F} vs {H}", c2)
            cp = P.pv(z["zeta"])
            if i:
                if cp != true: ck.violation("zeta-raised", f"{lab}: zeta {true} becomes {cp} with requested precision {a}", c2)
            else:
                ok = len(cp) == len(true) and all((s - t) % q == 0 for s, t in zip(cp, true)); ck.count("reduced polynomial" if cp != true else "lifted polynomial")
                if not ok: ck.violation("zeta-reduced", f"{lab}: with precision {a} not raised the polynomial {cp} is not {true} mod p^{a}", c2)
                elif cp != true and not all(0 <= s < q for s in cp): ck.violation("zeta-range", f"{lab}: with precision {a} not raised the polynomial {cp} is neither lifted nor reduced", c2)
                M = W.charpoly_mod2(F, q)
                if same and any((s - t) % q for s, t in zip(M, true)): ck.violation("charpoly", f"{lab}: characteristic polynomial of the matrix mod p^{a} is {M}, zeta {true}", c2)
            if r.random() < .02: ck.sample(f"{lab}: a={a} of {hi}, flag {i}: matrix agrees mod p^{a}, polynomial {cp[:6]}")
    return ck.finish(need=ck.scale(80, 1000))
