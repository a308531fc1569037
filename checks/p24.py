from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
SHAPES = [(2, d) for d in range(3, 10)] + [(3, 4), (3, 5), (3, 6)]
def table(ck, B, r):
    """every (n, d, p): the digits the truncation leaves against the digits requested, and uniqueness under the Weil bounds"""
    cases = []; cost = {}; top = ck.scale(400, 5000); ps = P.primes(3, top) + [p for p in (1009, 10007, 65537, 1000003, 2147483647) if p > top]
    for n, d in SHAPES:
        for p in ps:
            cases.append(run.case(f"t{n}.{d}.{p}", "default_args", n=n, d=d, p=p, dirty=len(cases) % 2))
    res = run.run(B, cases, cpu=20, chunk=200); out = {}
    for c in cases:
        n, d, p = (int(c[2][k]) for k in "ndp"); z = res[c[0]]; lab = f"n={n} d={d} p={p}"
        if not z.ok: ck.crashed(c, z, lab + ": no default parameters for a supported shape"); ck.observe(); continue
        N = P.pv(z["N"]); cp = P.pv(z["cp"]); prec = int(z["precision"]); out[n, d, p] = (N, cp, prec); h = W.hodge(n, d); b = sum(h); w = n - 1; ck.observe((n, d, p))
        def bad(k, t): ck.violation(f"{k}:{n}.{d}:{tuple(N)}.{prec}", f"{lab}: N={N} precision={prec} digits={cp}: {t}"[:900], [c])
        if len(cp) != b + 1 or len(N) != n or min(N) < 0 or prec < 1: bad("shape", f"cohomology has dimension {b}"); continue
        have, cols = D.coefficient_digits(n, d, p, N, prec)
        for j in range(1, b + 1):
            if j == b and w % 2: continue      # the constant coefficient is known
            if have[j - 1] < cp[b - j]: bad("digits", f"coefficient of T^{b - j} is asked modulo p^{cp[b - j]}, {have[j - 1]} digits are certain (columns {cols})"); break
        for j in range(1, b // 2 + 1):
            pr = max(cp[b - j], cp[j] - (b - 2 * j) * w // 2)
            if (j * p ** pr) ** 2 <= (2 * b) ** 2 * p ** (w * j): bad("unique", f"coefficient of T^{b - j} modulo p^{pr} is not determined by the Weil bounds"); break
        ck.count("coefficients certified", b)
    return out
def actual(ck, B, r, tab):
    """the digits requested are really correct: the same columns with more terms and precision"""
    xs = []
    for d, lo, hi, cnt in [(3, 5, 61, ck.scale(4, 30)), (4, 3, 31, ck.scale(3, 16))] + ([(5, 3, 13, 2)] if ck.quick else [(5, 3, 19, 6), (6, 5, 7, 1)]):
        for p in P.primes(lo, hi):
            if d % p: xs += work.curves(r, cnt, d, [p])
    cases = []; cost = {}; meta = {}
    for i, x in enumerate(xs):
        n, d, p = x["n"], x["d"], x["p"]; N, cp, prec = tab[n, d, p]; cls = "ND" if x["nd"] and r.random() < .7 else "J"; M = [k + r.randint(1, 2) for k in N]; f = P.any_lift(r, x["f"], p)
        for nm, NN, pp in (("a", N, prec), ("b", M, D.precision_for(n, p, M) + prec)):
            c = run.case(f"{nm}{i}", "frob", p=p, prec=pp, N=P.vec(NN), cls=cls, methods=cls, **P.fkv(f)); cases.append(c); cost[c[0]] = work.cost(n, d, p) * (2 if nm == "b" else 1)
        meta[i] = (x, cls, M)
    res = run.run(B, cases, cpu=ck.scale(120, 2000), cost=lambda c: cost[c[0]]); by = {c[0]: c for c in cases}
    for i, (x, cls, M) in meta.items():
        n, d, p = x["n"], x["d"], x["p"]; N, cp, prec = tab[n, d, p]; u, v = res[f"a{i}"], res[f"b{i}"]; cs = [by[f"a{i}"], by[f"b{i}"]]; lab = f"n={n} d={d} p={p} ({x['fam']}, {cls})"
        if not (u.ok and v.ok): ck.crashed(cs[0 if not u.ok else 1], u if not u.ok else v, lab); ck.observe(); continue
        F = P.pv(u["F." + cls]); G = P.pv(v["F." + cls]); q = p ** max(cp); b = len(F)
        # each column of F is right to the digits of its truncation; the coefficients to the digits requested
        _, cols = D.coefficient_digits(n, d, p, N, prec); basis = P.pv(u["basis"]); ck.observe((i, n, d, p) if any(map(any, F)) else None); ck.count("matrices recomputed with more terms")
        for k in range(b):
            m = (sum(basis[k]) + n + 1) // d; t = p ** max(0, min(cols[m - 1], prec))
            if any((F[a][k] - G[a][k]) % t for a in range(b)): ck.violation(f"column:{n}.{d}", f"{lab}: column {k} (pole order {m}) is not right modulo p^{cols[m - 1]} with N={N} precision {prec}: {[F[a][k] for a in range(b)]}, with N={M} {[G[a][k] for a in range(b)]}"[:1200], cs); break
        A = W.charpoly_mod2(F, q); C = W.charpoly_mod2(G, q)
        for j in range(b + 1):
            if j == 0 and (n - 1) % 2: continue
            if (A[j] - C[j]) % p ** cp[j]: ck.violation(f"coefficient:{n}.{d}", f"{lab}: coefficient of T^{j} with the default N={N} precision {prec} is {A[j]}, with N={M} {C[j]}: they differ modulo p^{cp[j]}", cs); break
        if r.random() < .02: ck.sample(f"{lab}: N={N} precision={prec} and N={M} agree to the digits {cp}")
def main():
    ck = Check("P24", rule="default_args evaluated for every supported shape and every prime up to the bound (plus larger ones), outputs prefilled with junk in half of the calls, and judged by the analytic bound for the digits left after truncation and by the Weil bounds; the Frobenius matrix at the default parameters recomputed with more terms and precision; nontrivial: every distinct (n, d, p) and every nonzero matrix",
               assumptions=["the number of certain digits is the bound derived in DESIGN.md (P24)"])
    B = build.build("plain", ["tools", "core"]); r = ck.rng; tab = table(ck, B["tools"], r); ck.sample(f"n=2 d=3 p=5 -> {tab.get((2, 3, 5))}")
    if tab and not ck.viol: actual(ck, B["core"], r, tab)
    return ck.finish(need=500)
