from vlib import build, run, poly as P, weil as W, work
from vlib.verdict import Check
def form(r, deg, nv, p): return {u: r.randrange(p) for u in P.tuples(deg, nv)}
def hidden_singular(r, n, d, p):
    """an element of the square of an ideal whose zeros are (usually) conjugate points over an extension"""
    e = r.choice([1, d // 2, d // 2]); gens = [form(r, r.choice([1, e, e]), n + 1, p) for _ in range(n)]; f = {}
    for i, a in enumerate(gens):
        for b in gens[i:]:
            q = P.mulp(a, b, p)
            if not q: continue
            k = d - sum(next(iter(q)))
            if k >= 0: f = P.addp(f, P.mulp(q, form(r, k, n + 1, p), p), p)
    return f
def tangent(r, n, d, p):
    """the restriction to a coordinate face (after forgetting some variables) has a double point: smooth but degenerate, in general"""
    f = P.fam_dense(r, n, d, p); face = sorted(r.sample(range(n + 1), r.randint(1, n))); k = len(face)
    if k == 1: g = {}
    else:
        g = hidden_singular(r, k - 1, d, p) if d >= 2 else {}
    f = {u: c for u, c in f.items() if any(u[i] for i in range(n + 1) if i not in face)}
    for u, c in g.items():
        w = [0] * (n + 1)
        for i, e in zip(face, u): w[i] = e
        f[tuple(w)] = c
    return f
def reducible(r, n, d, p):
    k = r.randint(1, d - 1); return P.mulp(form(r, k, n + 1, p), form(r, d - k, n + 1, p), p)
def missing(r, n, d, p):
    """equations in fewer variables, or without any term of high degree in one variable"""
    f = P.fam_dense(r, n, d, p); i = r.randrange(n + 1); m = r.choice([0, d - 2, d - 1]); return {u: c for u, c in f.items() if u[i] <= m}
GEN = dict(P.FAMS); GEN.update({"hidden singular": hidden_singular, "tangent": tangent, "reducible": reducible, "missing": missing})
SHAPES = [((2, 3), 420), ((2, 4), 260), ((2, 5), 90), ((2, 6), 24), ((2, 7), 8), ((2, 8), 2), ((3, 3), 60), ((3, 4), 14), ((1, 3), 60), ((1, 4), 60), ((1, 5), 40), ((1, 6), 20), ((2, 2), 60), ((3, 2), 40), ((4, 2), 10), ((4, 3), 4)]
def items(ck, shapes=SHAPES, mind=2, alld=False, mult=5):
    r = ck.rng; xs = []
    for (n, d), k in shapes:
        if d < mind: continue
        ps = [p for p in P.primes(2, 40) + [97, 251, 1009, 10007] if d % p or alld]; names = list(GEN)
        k = k * ck.scale(mult, 12 * mult); got = 0; tries = 0
        while got < k and tries < 6 * k:
            tries += 1; fam = names[tries % len(names)]
            if n == 1 and fam in ("degenerate",): continue
            p = r.choice(ps)
            f = GEN[fam](r, n, d, p)
            if not P.clean(f, p): continue
            if r.random() < .6: f = P.clean(f, p)
            xs.append({"f": f, "p": p, "n": n, "d": d, "fam": fam}); got += 1
    return xs
def main():
    ck = Check("P12", rule="equations of every family (generic, sparse, with conjugate singular points over extensions, reducible, cones, tangent to coordinate faces) in 2 to 5 variables of degree 2 to 8 prime to p; every decision is compared with the rank of the Macaulay matrix of the partial derivatives computed independently, and with a search for singular points over small extension fields; nontrivial always, distinct by equation and prime",
               assumptions=["a form of degree prime to p is singular exactly where all its partial derivatives vanish"])
    B = build.build("plain", ["core"])["core"]; r = ck.rng; xs = items(ck); cases = []; lines = []
    for i, x in enumerate(xs):
        n, d, p = x["n"], x["d"], x["p"]
        if r.random() < .3: x["f"] = P.any_lift(r, x["f"], p, r.random() < .3)
        cases.append(run.case(f"s{i}", "smooth", p=p, prec=r.choice([1, 1, 2, 5]), nd=0, **P.fkv(x["f"])))
        lines.append(P.oline(f"m{i}", "smooth", p, 1, P.clean(x["f"], p)))
        for e in range(1, 7):
            if (p ** e) ** n > ck.scale(40000, 400000): break
            lines.append(P.oline(f"e{i}.{e}", "singpt", p, e, P.clean(x["f"], p)))
    o = work.oracle(lines); res = run.run(B, cases, cpu=120, cost=lambda c: (sum(xs[int(c[0][1:])][k] for k in "nd")) ** 4)
    for i, (x, c) in enumerate(zip(xs, cases)):
        z = res[c[0]]; lab = f"n={x['n']} d={x['d']} p={x['p']} ({x['fam']})"
        if not z.ok: ck.crashed(c, z, lab + ": smoothness test did not answer"); ck.observe(); continue
        got = z["smooth"] == "1"; want = bool(o[f"m{i}"][0]); ck.observe((tuple(sorted(P.clean(x["f"], x["p"]).items())), x["p"])); ck.count(("smooth" if want else "singular") + f" n={x['n']}")
        e = 1; pt = None
        while f"e{i}.{e}" in o:
            if o[f"e{i}.{e}"][0]: pt = e; break
            e += 1
        if pt is not None and want: raise run.HarnessError(f"oracles disagree on {lab} {x['f']}")
        if pt is not None: ck.count(f"explicit singular point over F_p^{pt}")
        if got != want: ck.violation("accepts" if got else "rejects", f"{lab}: isSmooth says {got}, the partial derivatives have {'no' if want else 'a'} common zero" + (f" (one over F_{x['p']}^{pt})" if pt else ""), [c])
        if i % 250 == 0: ck.sample(f"{lab}: smooth={want}" + (f", singular point over F_p^{pt}" if pt else ""))
    return ck.finish(need=500)
