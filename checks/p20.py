from math import comb
from vlib import build, run, poly as P
from vlib.verdict import Check
def ev(f, x, m=None):
    s = 0
    for u, c in f.items():
        t = c
        for a, e in zip(x, u): t = t * (pow(a, e, m) if m else a ** e)
        s += t
    return s % m if m else s
def main():
    ck = Check("P20", rule="substitutions of every kind of matrix (dense, singular, permutation, elementary, identity, zero) into homogeneous and inhomogeneous polynomials over the integers and over residue rings of one and several words; the result is compared as a function at random points, coefficientwise with an independent substitution, and composed with a second substitution; expansions of shifted monomials are compared with their binomial coefficients; nontrivial when matrix and polynomial are nonzero, distinct by case")
    B = build.build("plain", ["tools"])["tools"]; r = ck.rng; cases = []; meta = {}; second = []
    def mat(n, m):
        k = r.choice(["dense", "dense", "singular", "permutation", "elementary", "identity", "zero", "sparse"]); e = lambda: r.randrange(m) if m else r.choice([0, r.randint(-9, 9), r.randint(-10 ** 20, 10 ** 20)])
        M = [[e() for _ in range(n)] for _ in range(n)]
        if k == "singular": M[r.randrange(n)] = [0] * n
        if k == "permutation": s = list(range(n)); r.shuffle(s); M = [[int(s[i] == j) for j in range(n)] for i in range(n)]
        if k in ("identity", "elementary"): M = [[int(i == j) for j in range(n)] for i in range(n)]
        if k == "elementary" and n > 1: i, j = r.sample(range(n), 2); M[i][j] = e()
        if k == "zero": M = [[0] * n for _ in range(n)]
        if k == "sparse": M = [[x if r.random() < .4 else 0 for x in row] for row in M]
        return k, M
    for i in range(ck.scale(1600, 20000)):
        n = r.choice([1, 2, 3, 3, 3, 4, 4]); d = r.randint(0, {1: 9, 2: 8, 3: 6, 4: 4}[n]); ring = r.choice(["ZZ", "ZZ_p", "zz_p"]); m = None
        if ring == "ZZ_p": m = r.choice([2, 49, 101 ** 4, 3 ** 60, 2 ** 64 + 13])
        if ring == "zz_p": m = r.choice([3, 5, 7, 101, 10007, 1152921504606846883])
        T = P.tuples(d, n) if r.random() < .85 else [t for k in range(d + 1) for t in P.tuples(k, n)]; T = r.sample(T, r.randint(1, len(T))); f = {u: (r.randrange(m) if m else r.choice([r.randint(-5, 5), r.randint(-10 ** 25, 10 ** 25)])) for u in T}
        k, M = mat(n, m); c = run.case(f"c{i}", "chvar", ring=ring, mod=m, M=P.mat(M), **P.fkv(f)); cases.append(c); meta[c[0]] = (n, d, ring, m, f, k, M)
    for i in range(ck.scale(500, 6000)):
        n = r.randint(1, 5); u = [r.randint(0, r.choice([1, 4, 12])) for _ in range(n)]; v = [r.randint(0, r.choice([1, 3, 5])) for _ in range(n)] 
        if sum(e * max(1, abs(w) + 1).bit_length() for e, w in zip(u, v)) > 58: u = [e // 4 for e in u]
        if r.random() < .2: v = [r.randint(-3, 3) for _ in range(n)]
        if sum(e * (abs(w) + 1).bit_length() for e, w in zip(u, v)) > 58: continue
        c = run.case(f"m{i}", "chmono", u=P.vec(u), v=P.vec(v)); cases.append(c); meta[c[0]] = (u, v)
    res = run.run(B, cases, cpu=120)
    def nz(g, m): return {u: c for u, c in g.items() if (c % m if m else c)}
    for c in cases:
        z = res[c[0]]
        if not z.ok: ck.crashed(c, z, f"{c[1]} did not return"); ck.observe(); continue
        g = P.pfun(z, "g")
        if c[1] == "chmono":
            u, v = meta[c[0]]; ck.observe(c[0] if any(a * b for a, b in zip(u, v)) else None); ck.count("shifted monomials"); w = {(0,) * (len(u) + 1): 1}
            for i, (e, s) in enumerate(zip(u, v)): w = P.mulp(w, {tuple([(e - j if t == i else 0) for t in range(len(u))] + [j]): comb(e, j) * s ** j for j in range(e + 1)})
            if nz(g, None) != nz(w, None): ck.violation("chmono", f"(x + {v} t)^{u}: got {str(g)[:400]}, expected {str(w)[:400]}", [c])
            continue
        n, d, ring, m, f, k, M = meta[c[0]]; lab = f"{ring} mod {m}, {k} matrix {M}, f={str(f)[:300]}"; ck.observe(c[0] if any(map(any, M)) and nz(f, m) else None); ck.count(f"{ring} {k}")
        for _ in range(3):
            x = [r.randrange(m) if m else r.randint(-10 ** 6, 10 ** 6) for _ in range(n)]; y = [sum(a * b for a, b in zip(row, x)) for row in M]; y = [a % m for a in y] if m else y
            if ev(g, x, m) != ev(f, y, m): ck.violation(ring + ":value", f"{lab}: value at {x} is {ev(g, x, m)}, the original at the image {y} is {ev(f, y, m)}", [c]); break
        w = P.subst(nz(f, m), M, m) if nz(f, m) else {}
        if nz(g, m) != w: ck.violation(ring + ":coefficients", f"{lab}: got {str(nz(g, m))[:300]}, expected {str(w)[:300]}", [c])
        if k == "identity" and nz(g, m) != nz(f, m): ck.violation(ring + ":identity", f"{lab}: changed by the identity", [c])
        if any(not 0 <= x < m for x in g.values()) if m else False: ck.violation(ring + ":range", f"{lab}: coefficients not reduced", [c])
        if g and len(second) < ck.scale(500, 6000):
            k2, M2 = mat(n, m); MN = [[sum(M[i][t] * M2[t][j] for t in range(n)) for j in range(n)] for i in range(n)]; MN = [[x % m for x in row] for row in MN] if m else MN
            a = run.case("a" + c[0], "chvar", ring=ring, mod=m, M=P.mat(M2), **P.fkv(g)); b = run.case("b" + c[0], "chvar", ring=ring, mod=m, M=P.mat(MN), **P.fkv(f)); second.append((a, b, lab, k2, m, ring))
    res = run.run(B, [x for s in second for x in s[:2]], cpu=120)
    for a, b, lab, k2, m, ring in second:
        za, zb = res[a[0]], res[b[0]]
        for c, z in ((a, za), (b, zb)):
            if not z.ok: ck.crashed(c, z, lab)
        if not (za.ok and zb.ok): continue
        ck.observe(a[0]); ck.count("compositions")
        if nz(P.pfun(za, "g"), m) != nz(P.pfun(zb, "g"), m): ck.violation(ring + ":composition", f"{lab} then {k2}: successive substitutions differ from the substitution by the product", [a, b])
    ck.sample(lab)
    return ck.finish(need=1000)
