from vlib import build, run, poly as P
from vlib.verdict import Check
def main():
    ck = Check("P18", rule="products, scalar products, inner products, differences and transposed products of matrices of every shape (mostly not square), entries from 0 to 300 bits, in mpz, fmpz, nmod, NTL integers and residues; compared with the definition computed independently; random unimodular matrices of sizes 1 to 7 over several primes and seeds; nontrivial when both factors are nonzero, distinct by operands")
    B = build.build("plain", ["prod"])["prod"]; r = ck.rng; cases = []; meta = {}
    for i in range(ck.scale(2500, 40000)):
        s = lambda: r.choice([1, 1, 2, 3, 4, 5, 7, 12]); a, k, l = s(), s(), s(); mag = r.choice([1, 9, 2 ** 31, 2 ** 63, 10 ** 30, 2 ** 300]); e = lambda: r.choice([0, r.randint(-mag, mag), r.randint(-mag, mag), mag, -mag])
        A = [[e() for _ in range(k)] for _ in range(a)]; Bm = [[e() for _ in range(l)] for _ in range(k)]; v = [e() for _ in range(k)]; w = [e() for _ in range(k)]; sc = e(); q = r.choice([2, 3, 97, 2 ** 31 - 1, 2 ** 63 - 25, 2 ** 64 - 59, 2 ** 32, 7 ** 22]); mod = r.choice([3, 49, 101 ** 4, 7 ** 60, 2 ** 64 + 13])
        c = run.case(f"p{i}", "prod", A=P.mat(A), B=P.mat(Bm), v=P.vec(v), w=P.vec(w), a=sc, q=q, mod=mod, dirty=r.randrange(2)); cases.append(c); meta[c[0]] = (A, Bm, v, w, sc, q, mod)
    sl = []
    for i in range(ck.scale(150, 3000)):
        n = r.choice([1, 2, 3, 3, 4, 4, 5, 7]); p = r.choice([2, 3, 5, 7, 13, 101, 65537, 1152921504606846883]); c = run.case(f"s{i}", "sl", n=n, p=p, seed=r.randrange(1 << 40), times=20); cases.append(c); sl.append((c, n, p))
    res = run.run(B, cases, cpu=60)
    flat = lambda M: [x for row in M for x in row]; dot = lambda x, y: sum(a * b for a, b in zip(x, y))
    for c in cases:
        z = res[c[0]]
        if c[1] != "prod": continue
        A, Bm, v, w, sc, q, mod = meta[c[0]]; s = f"{len(A)}x{len(v)} times {len(v)}x{len(Bm[0])}"
        if not z.ok: ck.crashed(c, z, s + ": products did not return"); ck.observe(); continue
        AB = [[dot(x, y) for y in zip(*Bm)] for x in A]; Av = [dot(x, v) for x in A]; T = [list(x) for x in zip(*AB)]; R = {"AB": flat(AB), "ABt": flat(AB), "aA": [sc * x for x in flat(A)], "Av": Av, "av": [sc * x for x in v], "v+w": [x + y for x, y in zip(v, w)], "v+=w": [x + y for x, y in zip(v, w)], "vw": [dot(v, w)], "fAv": Av, "fvw": [dot(v, w)], "nAv": [x % q for x in Av], "nsub": [(x - (x * sc + v[j])) % q for row in A for j, x in enumerate(row)]}
        ck.observe(c[0] if any(flat(A)) and any(flat(Bm)) and any(v) else None); ck.count("square" if len(A) == len(v) == len(Bm[0]) else "not square")
        for k, e in R.items():
            if k not in z: continue
            ck.count("product " + k); got = [int(t) for t in z[k].split()]
            if got != e: ck.violation(k, f"{s}: {k} = {str(got)[:300]}, expected {str(e)[:300]}", [c])
        for k, e in {"mt": AB, "tmt": T, "mtp": [[x % mod for x in row] for row in AB], "tmtp": [[x % mod for x in row] for row in T]}.items():
            ck.count("product " + k)
            if P.pv(z[k]) != e: ck.violation(k, f"{s}: {k} = {z[k][:300]}, expected {str(e)[:300]}", [c])
    for c, n, p in sl:
        z = res[c[0]]
        if not z.ok: ck.crashed(c, z, f"random unimodular {n}x{n} mod {p}"); ck.observe(); continue
        seen = set()
        for t in range(20):
            M = P.pv(z[f"M{t}"]); ck.observe((n, p, z[f"M{t}"]) if n > 1 else None); ck.count("unimodular"); seen.add(z[f"M{t}"])
            if len(M) != n or any(len(x) != n for x in M) or P.detmod(M, p) != 1 % p: ck.violation("SL", f"{n}x{n} mod {p}: {M} has determinant {P.detmod(M, p)}", [c])
        if n > 1 and p > 100 and len(seen) == 1: ck.violation("SL random", f"{n}x{n} mod {p}: 20 draws, always {M}", [c])
    return ck.finish(need=1000)
