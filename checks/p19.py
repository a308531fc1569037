from math import comb, factorial
from vlib import build, run, poly as P, prec
from vlib.verdict import Check
def main():
    ck = Check("P19", rule="binomials over the whole range of 64 bits and beyond, factorials and their p-adic parts with every starting point, every enumeration of exponent vectors up to several thousand elements, the monomial order on random sets of exponent vectors, vector arithmetic; compared with exact values; nontrivial except for empty or zero arguments; distinct by arguments")
    B = build.build("plain", ["tools"])["tools"]; r = ck.rng; cases = []; meta = {}
    def add(cmd, m, **kw): c = run.case(f"{cmd}{len(cases)}", cmd, **kw); cases.append(c); meta[c[0]] = m
    for n in list(range(0, 120)) + [r.randrange(120, 1500) for _ in range(ck.scale(60, 800))]:
        p = r.choice([2, 3, 5, 7, 11, 13, 23, 43, 101, 1009]); k = r.choice([1, 2, 3, 7, 20, 40]); start = r.choice([1, 1, r.randint(1, n + 2), max(1, n - r.randrange(5))]); add("numbers", (n, p, k, start), n=n, p=p, prec=k, start=start, bmax=61)
    for p in [2, 3, 5, 7, 43, 1009]:
        for n in [0, 1, p - 1, p, p + 1, p * p - 1, p * p, p ** 3 - 1, p ** 3]:
            if n < 3000: add("numbers", (n, p, 5, 1), n=n, p=p, prec=5, start=1, bmax=61)
    for n in list(range(50, 75)) + [100, 1000, 10 ** 5]:
        for k in sorted({0, 1, 2, 3, n // 4, n // 3, n // 2, n // 2 + 1, n - 2, n - 1, n, r.randint(0, n)}):
            if n < 10 ** 4 or min(k, n - k) < 5: add("binom", (n, k), n=n, k=k)
    for _ in range(ck.scale(300, 4000)):
        n = r.choice([r.randrange(2 ** 20, 2 ** 31), r.randrange(2 ** 31 - 9, 2 ** 31 + 9), r.randrange(2 ** 32 - 9, 2 ** 32 + 9), r.randrange(2 ** 32, 2 ** 62), r.randrange(2 ** 32, 2 ** 40)]); p = r.choice([2, 3, 5, 7, 43, 1009, 65537, 10 ** 9 + 7]); k = r.choice([n - 8, n - 1, n - 3, n]); start = n - r.randrange(40); a = r.randrange(30)
        if r.random() < .4 and p ** 3 < n: t = p ** r.randint(2, 3); n = min(2 ** 62, n // t * t + r.randrange(5)); start = n - r.randrange(40); k = r.choice([n, n - 1, n - 2])
        add("huge", (n, p, k, start), n=n, p=p, k=k, start=start, prec=r.choice([1, 3, 9]))
    for nv in range(1, 8):
        for d in range(0, 31):
            if comb(d + nv - 1, nv - 1) <= ck.scale(3000, 40000): add("tuples", (d, nv), deg=d, nv=nv, dirty=r.randrange(2))
    for _ in range(ck.scale(700, 8000)):
        n = r.randint(0, 6); top = r.choice([1, 2, 5, 40, 2 ** 31, 2 ** 62]); V = sorted({tuple(r.randint(-top if top > 40 else 0, top) for _ in range(n)) for _ in range(r.randint(1, 14))})
        if top > 40 and n:   # entries that agree in their low or high halves
            w = [r.randint(0, 2 ** 30) for _ in range(n)]; V += [tuple(x + (r.choice([0, 1, -1, 3]) << r.choice([0, 31, 32, 33, 48, 61])) for x in w) for _ in range(6)]; V = sorted(set(V))
        if r.random() < .3 and n > 1: V = r.sample(P.tuples(r.randint(1, 6), n), 3) if len(P.tuples(3, n)) >= 3 and n > 1 and len(P.tuples(1, n)) >= 3 else V
        V = V + [V[0]] * r.randrange(2); r.shuffle(V); add("order", V, V="[" + " ".join(P.vec(v) for v in V) + "]")
    for _ in range(ck.scale(900, 10000)):
        n = r.randint(0, 7); m = r.choice([3, 100, 2 ** 30, 2 ** 30]); A = r.choice([m, 2 ** 54]); a = [r.choice([0, r.randint(0, A)]) for _ in range(n)]; m = 16 if A > m else m; b = [r.randint(-m, m) for _ in range(n)]; k = r.randint(-50, 50); tw = r.randint(0, min(sum(a) + 2, 60)); M = [[r.randint(-m, m) for _ in range(n)] for _ in range(r.randint(1, 5))]
        add("vecs", (a, b, k, tw, M), a=P.vec(a), b=P.vec(b), k=k, r=tw, M=P.mat(M))
    res = run.run(B, cases, cpu=60)
    for c in cases:
        z = res[c[0]]; m = meta[c[0]]; cmd = c[1]
        def want(k, got, exp, what):
            if got != exp: ck.violation(f"{cmd}:{k}", f"{what}: got {str(got)[:400]}, expected {str(exp)[:400]}", [c])
        if cmd == "binom":
            n, k = m; ck.observe((n, k)); ck.count("binomials")
            if not z.ok:
                if comb(n, k) < 2 ** 63: ck.crashed(c, z, f"binomial({n},{k})")
                else: ck.count("too large, refused")
            elif int(z["x"]) != comb(n, k): ck.violation("binomial", f"binomial({n},{k}) = {z['x']}, exact value {comb(n, k)}", [c])
            continue
        if not z.ok: ck.crashed(c, z, f"{cmd} {str(m)[:200]}"); ck.observe(); continue
        if cmd == "huge":
            n, p, k, start = m; ck.observe(m); ck.count("arguments of any size"); x = 1
            for i in range(start, n + 1): x *= i
            v = 0; u = x
            while u % p == 0: u //= p; v += 1
            want("val", int(z["val"]), prec.vfact(n, p), f"valuation of {n}! at {p}"); want("binomialZZ", int(z["binomialZZ"]), comb(n, k), f"binomial_ZZ({n},{k})"); want("fact", int(z["fact"]), x, f"{n}!/({start}-1)!"); want("padic_val", int(z["padic_val"]), v, f"p-adic valuation of {n}!/({start}-1)! at {p}"); want("padic", int(z["padic"]), u % p ** c[2]["prec"], f"unit part of {n}!/({start}-1)!")
        elif cmd == "numbers":
            n, p, k, start = m; ck.observe(m if n else None); ck.count("factorials"); row = [comb(n, i) for i in range(n + 1)]
            if n <= 61: want("binomial", [int(t) for t in z["binomial"].split()], row, f"binomial({n}, .)")
            want("binomialZZ", [int(t) for t in z["binomialZZ"].split()], row, f"binomial_ZZ({n}, .)"); want("val", int(z["val"]), prec.vfact(n, p), f"valuation of {n}! at {p}")
            x = 1
            for i in range(start, n + 1): x *= i
            v = 0; u = x
            while u % p == 0: u //= p; v += 1
            want("padic_val", int(z["padic_val"]), v, f"p-adic valuation of {n}!/({start}-1)! at {p}"); want("padic", int(z["padic"]), u % p ** k, f"unit part of {n}!/({start}-1)! mod {p}^{k}"); want("factp", int(z["factp"]), x % p ** k, f"{n}!/({start}-1)! mod {p}^{k}"); want("fact", int(z["fact"]), factorial(n), f"{n}!"); want("fact_from", int(z["fact_from"]), x, f"{n}!/({start}-1)!")
            if n <= 20: want("fact_i", int(z["fact_i"]), factorial(n), f"{n}! in 64 bits")
        elif cmd == "tuples":
            d, nv = m; T = P.tuples(d, nv); ck.observe(m); ck.count("enumerated exponent vectors", len(T)); want("T", [tuple(t) for t in P.pv(z["T"])], T, f"exponent vectors of degree {d} in {nv} variables, first the pure power of the last variable")
        elif cmd == "order":
            V = [tuple(v) for v in m]; ck.observe(c[0] if len(set(V)) > 1 else None); ck.count("ordered sets"); L = [[x == "1" for x in row] for row in z["lt"].split()]; N = range(len(V)); S = [tuple(v) for v in P.pv(z["S"])]
            if any(L[i][j] + L[j][i] != (V[i] != V[j]) for i in N for j in N): ck.violation("order:total", f"not exactly one of a<b, a=b, b<a on {V}", [c])
            if any(L[i][j] and L[j][k] and not L[i][k] for i in N for j in N for k in N): ck.violation("order:transitive", f"not transitive on {V}", [c])
            if sorted(S) != sorted(set(V)): ck.violation("order:set", f"a map keyed by {V} has keys {S}", [c])
            pos = {v: i for i, v in reversed(list(enumerate(V)))}
            if any(not L[pos[a]][pos[b]] for a, b in zip(S, S[1:])): ck.violation("order:sorted", f"keys {S} not increasing", [c])
            last = {v: i for i, v in enumerate(V)}; want("I", P.pv(z["I"]), [last[v] for v in S], "values under the keys")
        elif cmd == "vecs":
            a, b, k, tw, M = m; ck.observe(c[0]); ck.count("vector operations"); want("add", P.pv(z["add"]), [x + y for x, y in zip(a, b)], "sum"); want("sub", P.pv(z["sub"]), [x - y for x, y in zip(a, b)], "difference"); want("smul", P.pv(z["smul"]), [k * x for x in a], "scalar product"); want("dot", int(z["dot"]), sum(x * y for x, y in zip(a, b)), "inner product")
            want("Ma", P.pv(z["Ma"]), [sum(x * y for x, y in zip(row, a)) for row in M], "matrix by vector"); want("arr", P.pv(z["arr"]), a, "array round trip"); a and want("max", int(z["max"]), max(a), "maximum"); want("irreflexive", z["self"], "0", "a < a"); want("trichotomy", int(z["lt"]) + int(z["gt"]), int(a != b), "a<b, b<a")
            def step(v):
                v = list(v)
                for i, x in enumerate(v):
                    if x > 0: v[i] -= 1; break
                return v
            want("tweak_step", P.pv(z["tweak_step"]), step(a), f"tweak_step({a})"); t = a
            for _ in range(tw): t = step(t)
            want("tweak", P.pv(z["tweak"]), t, f"tweak({a},{tw})")
            for i, x in enumerate(a):
                if x > 0: want("diff", P.pv(z[f"diff{i}"]), [y - (j == i) for j, y in enumerate(a)], f"diff({a},{i})")
        if len(ck.samples) < 6 and r.random() < .003: ck.sample(f"{cmd} {str(m)[:200]}")
    return ck.finish(need=1000)
