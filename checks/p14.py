from vlib import build, run, poly as P, weil as W
from vlib.verdict import Check
PR = [2305843009213693951, 1152921504606846883, 1000000007]
def matrix(r, n):
    mag = r.choice([0, 1, 2, 9, 1000, 1 << 31, 1 << 63, 10 ** 30, 1 << 400]); e = lambda: r.randint(-mag, mag); kind = r.choice(["dense", "sparse", "upper", "nilpotent", "companion", "permutation", "low rank", "scalar", "block", "nonnegative", "p-divisible columns", "zero diagonal"])
    M = [[e() for _ in range(n)] for _ in range(n)]
    if kind == "sparse": M = [[x if r.random() < 1.5 / n else 0 for x in row] for row in M]
    if kind == "upper": M = [[M[i][j] if j >= i else 0 for j in range(n)] for i in range(n)]
    if kind == "nilpotent": 
        M = [[M[i][j] if j > i else 0 for j in range(n)] for i in range(n)]; s = list(range(n)); r.shuffle(s); M = [[M[a][b] for b in s] for a in s]
    if kind == "companion": M = [[(e() if j == n - 1 else int(i == j + 1)) for j in range(n)] for i in range(n)]
    if kind == "permutation": s = list(range(n)); r.shuffle(s); M = [[r.choice([1, -1]) if s[i] == j else 0 for j in range(n)] for i in range(n)]
    if kind == "low rank": u, v = [e() for _ in range(n)], [e() for _ in range(n)]; M = [[a * b for b in v] for a in u]
    if kind == "scalar": c = e(); M = [[c if i == j else 0 for j in range(n)] for i in range(n)]
    if kind == "block": k = r.randint(0, n); M = [[x if (i < k) == (j < k) else 0 for j, x in enumerate(row)] for i, row in enumerate(M)]
    if kind == "nonnegative": q = r.choice([2, 7 ** 6, 101 ** 4, 5 ** 40]); M = [[r.randrange(q) for _ in row] for row in M]
    if kind == "p-divisible columns": M = [[x * 7 ** (j % 3) for j, x in enumerate(row)] for row in M]
    if kind == "zero diagonal": M = [[0 if i == j else x for j, x in enumerate(row)] for i, row in enumerate(M)]
    return kind, M
def main():
    ck = Check("P14", rule="integer matrices of sizes 0 to 30 (thorough: 60) of twelve structures, entries from 0 to 400 bits; the result is compared exactly with an independent computation, and with Hessenberg reductions modulo three primes; nontrivial when the matrix is nonzero; distinct by matrix")
    B = build.build("plain", ["lin"])["lin"]; r = ck.rng; cases = []; meta = {}
    for i in range(ck.scale(4000, 60000)):
        n = 0 if i % 500 == 0 else r.choice([1, 2, 3, 4, 5, 6, 7, 8]) if r.random() < .85 else r.randint(9, ck.scale(30, 60)); kind, M = matrix(r, n); c = run.case(f"m{i}", "charpoly", M=P.mat(M)); cases.append(c); meta[c[0]] = (kind, M)
    res = run.run(B, cases, cpu=60, env={"MALLOC_PERTURB_": "170"}, # unconstructed elements do not look like zeros
         cost=lambda c: len(c[2]["M"]))
    for c in cases:
        z = res[c[0]]; kind, M = meta[c[0]]; n = len(M); lab = f"{n}x{n} {kind}"
        if not z.ok: ck.crashed(c, z, lab + ": no characteristic polynomial"); ck.observe(); continue
        cp = P.pv(z["cp"]); ck.observe((c[0],) if any(map(any, M)) else None); ck.count(kind); ck.count("larger than 8" if n > 8 else "up to 8")
        if len(cp) != n + 1 or cp[-1] != 1: ck.violation("shape", f"{lab}: {str(cp)[:300]} is not monic of degree {n}", [c]); continue
        if int(z["tr"]) != sum(M[i][i] for i in range(n)): ck.violation("trace", f"{lab}: trace {z['tr']}", [c])
        if n <= 14:
            if cp != W.charpoly(M): ck.violation("value", f"{lab}: {str(cp)[:400]}, expected {str(W.charpoly(M))[:400]}; M={str(M)[:400]}", [c])
        for p in PR:
            w = W.charpoly_mod(M, p)
            if [x % p for x in cp] != [x % p for x in w]: ck.violation("value mod p", f"{lab}: wrong modulo {p}: {str(cp)[:400]}; M={str(M)[:400]}", [c]); break
        if len(ck.samples) < 6 and r.random() < .01: ck.sample(f"{lab}: {str(cp)[:200]}")
    return ck.finish(need=400)
