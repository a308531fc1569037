from vlib import build, run, poly as P
from vlib.verdict import Check
def rank(M, p):
    M = [list(r) for r in M]; k = 0
    for j in range(len(M[0]) if M else 0):
        i = next((i for i in range(k, len(M)) if M[i][j] % p), None)
        if i is None: continue
        M[k], M[i] = M[i], M[k]; inv = pow(M[k][j], -1, p); M[k] = [x * inv % p for x in M[k]]
        for i in range(k + 1, len(M)):
            c = M[i][j] % p
            if c: M[i] = [(a - c * b) % p for a, b in zip(M[i], M[k])]
        k += 1
    return k
def matrix(r, m, n, p):
    """rows m, cols n, with a chosen kind of rank deficiency"""
    kind = r.choice(["random", "sparse", "lowrank", "zero rows", "zero cols", "zero", "identity", "repeated", "echelon"])
    if kind == "random": M = [[r.randrange(p) for _ in range(n)] for _ in range(m)]
    elif kind == "sparse": M = [[r.randrange(1, p) if r.random() < 1.5 / max(1, min(m, n)) else 0 for _ in range(n)] for _ in range(m)]
    elif kind == "lowrank":
        k = r.randint(0, max(0, min(m, n) - 1)); A = [[r.randrange(p) for _ in range(k)] for _ in range(m)]; B = [[r.randrange(p) for _ in range(n)] for _ in range(k)]
        M = [[sum(a * b[j] for a, b in zip(A[i], B)) % p for j in range(n)] for i in range(m)]
    elif kind == "zero": M = [[0] * n for _ in range(m)]
    elif kind == "identity": M = [[int(i == (j + 1) % max(m, 1)) for j in range(n)] for i in range(m)]
    elif kind == "repeated":
        base = [[r.randrange(p) for _ in range(n)] for _ in range(2)]; M = [[x * r.choice([1, 1, p - 1]) % p for x in base[r.randrange(2)]] for _ in range(m)]
    elif kind == "echelon": M = [[(r.randrange(p) if j > 2 * i else int(j == 2 * i)) for j in range(n)] for i in range(m)]
    else:
        M = [[r.randrange(p) for _ in range(n)] for _ in range(m)]
        if kind == "zero rows":
            for i in r.sample(range(m), r.randint(0, m)): M[i] = [0] * n
        else:
            for j in r.sample(range(n), r.randint(0, n)):
                for row in M: row[j] = 0
    return kind, M
def main():
    ck = Check("P11", rule="matrices of every shape (including no columns), rank profile and sparsity over primes of 2 to 59 bits and over residue rings below and above one machine word; nontrivial when the matrix is nonzero; distinct by matrix, modulus and implementation")
    B = build.build("plain", ["lin"])["lin"]; r = ck.rng; cases = []; meta = {}
    small = P.primes(2, 60); big = [101, 65537, 2147483647, 4294967291, 1000000007, 1125899906842597, 576460752303423433, 4611686018427387847 // 8 and 1152921504606846883]
    edge = [(3, 40), (19, 15), (4294967291, 2), (3, 41), (5, 27), (2147483647, 2), (3, 39), (7, 22), (11, 18), (13, 17), (2, 63), (2, 64), (2, 62)]
    N = ck.scale(1500, 40000)
    for i in range(N):
        m, n = (r.randint(1, 8), r.randint(0, 9)) if r.random() < .9 else (r.randint(1, 30), r.randint(0, 45)); p = r.choice(small) if r.random() < .75 else r.choice(big)
        if r.random() < .5:
            kind, M = matrix(r, m, n, p); impl = r.choice(["ntl", "flint", "auto", "auto0"]); kw = dict(impl=impl, dirty=r.randrange(2)); cmd = "solve_p"; prec = 1; q = p
        else:
            if r.random() < .2: p, prec = r.choice(edge)
            else: prec = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40])
            kind, M = matrix(r, m, n, p); q = p ** prec
            M = [[x + p * r.randrange(q // p) if r.random() < .8 else x for x in row] for row in M]; impl = r.choice(["ntl", "flint", "auto", "auto0"]); kw = dict(impl=impl, dirty=r.randrange(2), prec=prec); cmd = "solve_padic"
        c = run.case(f"m{i}", cmd, p=p, rows=m, cols=n, T=P.mat(M) if n else "[" + "[]" * m + "]", **kw); cases.append(c); meta[c[0]] = (m, n, p, prec, q, kind, M, impl)
    res = run.run(B, cases, cpu=60, cost=lambda c: 1 + c[2]["rows"] * c[2]["cols"] / 50); again = []; m2 = {}
    for c in cases:
        z = res[c[0]]; m, n, p, prec, q, kind, M, impl = meta[c[0]]; lab = f"{c[1]} {impl} {m}x{n} mod {p}^{prec} ({kind})"
        if not z.ok: ck.crashed(c, z, lab + ": no answer"); ck.observe(); continue
        Bv = P.pv(z["B"]); U = P.pv(z["U"]); rk = rank(M, p); ck.observe((c[0],) if rk else None); ck.count(impl + (" p-adic" if prec > 1 or c[1] == "solve_padic" else "")); ck.count("deficient" if rk < min(m, n) else "full rank"); ck.count("multiword" if q >= 1 << 64 else "one word")
        def bad(k, t): ck.violation(f"{c[1]}:{impl}:{k}", f"{lab}: {t}; T={str(M)[:400]} B={Bv} U={str(U)[:400]}", [c])
        if z["Tsame"] != "1": bad("input", "the input matrix was changed")
        if c[1] == "solve_padic" and (int(z["mod"]) != q or int(z["modp"]) != p): bad("modulus", "the modulus in force changed")
        if len(Bv) != m - rk or Bv != sorted(set(Bv)) or any(not 0 <= b < m for b in Bv): bad("B", f"complement {Bv} for rank {rk}"); continue
        if int(z["rows"]) != n + len(Bv) or int(z["cols"]) != m or len(U) != n + len(Bv) or any(len(u) != m for u in U): bad("shape", f"U is {z['rows']}x{z['cols']}"); continue
        full = [list(M[i]) + [int(Bv[k] == i) for k in range(len(Bv))] for i in range(m)]; Ut = list(zip(*U)) if U else [()] * m
        if any(sum(a * b for a, b in zip(full[i], Ut[j])) % q != int(i == j) for i in range(m) for j in range(m)): bad("identity", "(T + J) U is not the identity")
        if any(not 0 <= x < q for u in U for x in u): bad("range", "U not reduced")
        if c[1] == "solve_padic":
            a = run.case("a" + c[0], "solve_p", p=p, rows=m, cols=n, T=c[2]["T"], impl="auto"); again.append(a); m2[a[0]] = (c, Bv, lab)
        if r.random() < .004: ck.sample(f"{lab}: rank {rk}, B={Bv}")
    R2 = run.run(B, again, cpu=60)
    for a in again:
        c, Bv, lab = m2[a[0]]; z = R2[a[0]]; ck.observe(); ck.count("complement compared with the one mod p")
        if not z.ok: ck.crashed(a, z, lab + ": no answer mod p")
        elif P.pv(z["B"]) != Bv: ck.violation(f"lift:B", f"{lab}: complement {Bv}, mod p {z['B']}", [c, a])
    return ck.finish(need=ck.scale(800, 20000))
