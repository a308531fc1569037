from vlib import build, run, poly as P, weil as W, synth
from vlib.verdict import Check
PS = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 97, 101, 499, 1009, 10007, 1000003]
def main():
    ck = Check("P15", rule="integer Weil polynomials of weight 1 and 2 of the degree of every supported shape (products of totally real factors, repeated and extreme factors, all middle coefficients zero, both signs); the matrix handed over has that characteristic polynomial plus arbitrary multiples of p^(digits required by the default tables) in every coefficient, and is conjugated by unimodular matrices; nontrivial when some digit beyond the guaranteed ones was disturbed; distinct by polynomial and disturbance",
               assumptions=["the tables leave enough digits (P24)"])
    B = build.build("plain", ["lin", "tools"]); r = ck.rng; dc = []
    shapes = [(2, d, k) for d, k in zip(range(3, 10), [1200, 700, 240, 60, 20, 4, 3])] + [(3, 4, 600), (3, 5, 10), (3, 6, 2)]
    for n, d, k in shapes:
        for p in PS: dc.append(run.case(f"{n}.{d}.{p}", "default_args", p=p, n=n, d=d))
    tab = run.run(B["tools"], dc, cpu=10); cases = []; meta = {}
    for n, d, k in shapes:
        for t in range(ck.scale(k, k * 15)):
            p = r.choice([x for x in PS if d % x]); z = tab[f"{n}.{d}.{p}"]
            if not z.ok: ck.crashed([c for c in dc if c[0] == f"{n}.{d}.{p}"][0], z, "default arguments"); continue
            prec = P.pv(z["cp"]); w = n - 1; b = sum(W.hodge(n, d))
            if len(prec) != b + 1: ck.violation("table", f"n={n} d={d} p={p}: {len(prec)} precisions for degree {b}", []); continue
            cp = synth.weil(r, p, w, b); extra = [r.choice([0, 0, 0, 1, 3]) if t % 3 == 0 else 0 for _ in prec]; prec = [a + e for a, e in zip(prec, extra)]
            if t % 3 == 0: prec = sorted(prec, reverse=True)
            noise = r.choice([0, 1, 3, p ** 2, p ** 12]); k2 = [r.randint(-noise, noise) for _ in range(b)] if r.random() < .9 else [noise] * b
            dist = [a + x * p ** e for a, x, e in zip(cp, k2, prec)] + [1]; M = synth.companion(dist)
            for _ in range(r.choice([0, 0, 3, 8]) if b <= 21 else 0):  # conjugation by elementary matrices
                i, j = r.sample(range(b), 2); s = r.choice([1, -1, 2])
                for x in range(b): M[i][x] += s * M[j][x]
                for x in range(b): M[x][j] -= s * M[x][i]
            if r.random() < .5: m = p ** (max(prec) + 30); M = [[x % m if x else 0 for x in row] for row in M] if b <= 6 else M
            c = run.case(f"c{len(cases)}", "charpoly_frob", M=P.mat(M), prec=P.vec(prec), p=p, dim=w); cases.append(c); meta[c[0]] = (n, d, p, cp, any(k2), prec)
    res = run.run(B["lin"], cases, cpu=300, cost=lambda c: len(c[2]["prec"]) ** 4)
    for c in cases:
        z = res[c[0]]; n, d, p, cp, dis, prec = meta[c[0]]; lab = f"n={n} d={d} p={p}"; ck.observe(c[0] if dis else None); ck.count(f"n={n} d={d}")
        if n == 3: ck.count("sign -1" if cp[0] * (-1 if 0 else 1) < 0 else "sign +1")
        if not any(cp[1:-1]): ck.count("no middle coefficients")
        if not z.ok: ck.crashed(c, z, f"{lab}: characteristic polynomial {str(cp)[:300]} not recovered"); continue
        got = P.pv(z["cp"])
        if got != cp: ck.violation("value", f"{lab} digits {str(prec)[:200]}: recovered {str(got)[:500]}, expected {str(cp)[:500]}", [c])
        elif len(ck.samples) < 6 and r.random() < .02: ck.sample(f"{lab}: {str(cp)[:200]} recovered from {str(prec)[:100]} digits")
    return ck.finish(need=300)
