from vlib import build, run, poly as P, weil as W, synth
from vlib.verdict import Check
CYC = [(m, W.phi(m)) for m in range(1, 420)]
def noncyc(r, q, m):
    """factor of degree m without roots sqrt(q) times a root of unity"""
    x = int(round(q ** .5)); x = next(y for y in (x - 1, x, x + 1) if y * y == q)
    while True:
        f = synth.factors(r, q, True, m)
        # scaled polynomial must not share a factor with any cyclotomic
        g = [c for c in f]; ok = True
        for k, ph in CYC:
            if ph > m: continue
            s = [c * x ** (ph - i) for i, c in enumerate(W.cyclotomic(k))]
            if len(W.gcdpoly(g, s)) > 1: ok = False; break
        if ok: return f
def main():
    ck = Check("P16", rule="products of scaled cyclotomic polynomials (every index with totient at most the degree, repeated) and Weil factors without such roots, in dimensions 0, 2 and 4, degrees up to 105; the reported number is compared with the number planted; nontrivial when both kinds of factors or index above 2 occur; distinct by polynomial and prime",
               assumptions=["the input is a Weil polynomial of the right weight, as charpoly_frob returns it"])
    B = build.build("plain", ["tools"])["tools"]; r = ck.rng; cases = []; meta = {}
    CYC[:] = [x for x in CYC if x[1] <= 104]
    for i in range(ck.scale(1500, 20000)):
        dim = r.choice([2, 2, 2, 2, 0, 4]); p = r.choice([3, 5, 7, 11, 23, 43, 101, 1009, 2147483647]); q = p ** (dim // 2); b = r.choice([21, 21, 21, 52, 105, 2, 3, 5, 9]) if dim != 0 else r.choice([2, 3, 4, 5]); cp = [1]; rho = 0; idx = []
        target = r.choice([b, b - r.randrange(b + 1), r.randrange(b + 1), 0]); 
        if dim == 0: target = b
        if (b - target) % 2: target += 1
        while rho < target:
            room = target - rho; c = [x for x in CYC if x[1] <= room]; m, ph = r.choice(c if r.random() < .5 else [x for x in c if 2 * x[1] >= room] or c); 
            k = r.choice([1, 1, 1, 2, 3]) if ph < 9 else 1
            for _ in range(k):
                if rho + ph > target: break
                cp = W.mul(cp, [x * q ** (ph - j) for j, x in enumerate(W.cyclotomic(m))]); rho += ph; idx.append(m)
        nc = 0; pool = None
        while len(cp) <= b:
            room = b + 1 - len(cp)
            if pool and room >= len(pool) - 1 and (r.random() < .4 or nc > 5): f = pool
            else: f = pool = noncyc(r, q * q, r.choice([2, 4]) if room >= 4 else 2)
            cp = W.mul(cp, f); nc += 1
        c = run.case(f"g{i}", "picard", cp=P.vec(cp), p=p, dim=dim); cases.append(c); meta[c[0]] = (dim, p, cp, rho + 1, idx, nc)
    res = run.run(B, cases, cpu=120, cost=lambda c: len(c[2]["cp"]))
    for c in cases:
        z = res[c[0]]; dim, p, cp, want, idx, nc = meta[c[0]]; lab = f"dimension {dim}, degree {len(cp) - 1}, p={p}, cyclotomic indices {sorted(idx)}, {nc} other factors"
        if not z.ok: ck.crashed(c, z, lab + ": no answer"); ck.observe(); continue
        ck.observe(c[0] if nc and idx or max(idx + [0]) > 2 else None); ck.count(f"dimension {dim}"); ck.count("all eigenvalues" if not nc else "some eigenvalues" if idx else "none")
        if int(z["rho"]) != want: ck.violation(f"dimension {dim}", f"{lab}: reported {z['rho']}, expected {want}", [c])
        elif len(ck.samples) < 6 and r.random() < .02: ck.sample(f"{lab}: {want}")
    return ck.finish(need=200)
