from vlib import build, run, poly as P, weil as W, work
from vlib.verdict import Check
from checks.p12 import items, SHAPES
def main():
    ck = Check("P13", rule="isND on equations of every family, against an independent Macaulay rank of the toric derivatives and a search for explicit common zeros; find_change_of_variables on degenerate and nondegenerate equations: the returned matrix is zero, or invertible with a substitution (done independently) that is nondegenerate; nontrivial always, distinct by equation, prime, seed",
               assumptions=["if at least 3 of 6 independent random substitutions are nondegenerate, several hundred tries of the search cannot all fail"])
    B = build.build("plain", ["core"])["core"]; r = ck.rng; xs = items(ck, [(s, max(2, k * 2 // 3)) for s, k in SHAPES if s not in ((2, 8), (2, 7))], 2, alld=True); cases = []; lines = []
    for i, x in enumerate(xs):
        n, d, p = x["n"], x["d"], x["p"]
        if r.random() < .3: x["f"] = P.any_lift(r, x["f"], p, r.random() < .3)
        cases.append(run.case(f"s{i}", "smooth", p=p, prec=r.choice([1, 1, 2, 5]), **P.fkv(x["f"]))); g = P.clean(x["f"], p)
        lines.append(P.oline(f"m{i}", "nd", p, 1, g))
        for e in range(1, 7):
            if (p ** e) ** n > ck.scale(20000, 200000): break
            lines.append(P.oline(f"e{i}.{e}", "torpt", p, e, g))
    # searches
    ys = []
    for (n, d), k in [((2, 3), 300), ((2, 4), 120), ((2, 5), 20), ((3, 3), 30), ((3, 4), 4), ((1, 4), 40), ((2, 2), 40)]:
        ps = [p for p in P.primes(2, 60) + [251, 65537] if d % p]
        for t in range(ck.scale(k, k * 10)):
            p = r.choice(ps); f = P.clean(P.FAMS[r.choice(["degenerate", "inv", "dense", "sparse", "diag", "cyclic"] if n > 1 else ["dense", "sparse"])](r, n, d, p), p)
            if not f: continue
            ys.append({"f": f, "n": n, "d": d, "p": p, "fam": "search"})
    for i, y in enumerate(ys):
        kw = {} if r.random() < .4 else {"tries": r.choice([1, 2, 5, 100])}
        if "tries" not in kw and y["d"] > 4: kw["tries"] = 60
        c = run.case(f"f{i}", "fcov", p=y["p"], prec=r.choice([1, 2, 4]), seed=r.randrange(1 << 30), **kw, **P.fkv(y["f"])); y["c"] = c; cases.append(c); lines += [P.oline(f"y{i}", "nd", y["p"], 1, y["f"]), P.oline(f"ys{i}", "smooth", y["p"], 1, y["f"])] if y["d"] % y["p"] else []
    res = run.run(B, cases, cpu=200, cost=lambda c: 200 if c[0][0] == "f" else (sum(xs[int(c[0][1:])][k] for k in "nd")) ** 4 / 100)
    for i, y in enumerate(ys):
        z = res[y["c"][0]]
        if not z.ok: continue
        M = P.pv(z["M"]); y["M"] = M; n, p = y["n"], y["p"]
        if any(map(any, M)): g = P.subst(y["f"], M, p); y["g"] = g; lines += [P.oline(f"g{i}", "nd", p, 1, g)] if g else []
        else:
            for t in range(6): lines.append(P.oline(f"t{i}.{t}", "nd", p, 1, P.subst(y["f"], P.rand_gl(r, n + 1, p), p)))
    o = work.oracle(lines)
    for i, (x, c) in enumerate(zip(xs, cases)):
        z = res[c[0]]; lab = f"n={x['n']} d={x['d']} p={x['p']} ({x['fam']})"
        if not z.ok: ck.crashed(c, z, lab + ": nondegeneracy test did not answer"); ck.observe(); continue
        got = z["nd"] == "1"; want = bool(o[f"m{i}"][0]); ck.observe((tuple(sorted(P.clean(x["f"], x["p"]).items())), x["p"])); ck.count("nondegenerate" if want else "degenerate")
        if not want and z["smooth"] == "1": ck.count("smooth but degenerate")
        e = 1; pt = None
        while f"e{i}.{e}" in o:
            if o[f"e{i}.{e}"][0]: pt = e; break
            e += 1
        if pt is not None and want: raise run.HarnessError(f"oracles disagree on {lab} {x['f']}")
        if pt is not None: ck.count(f"explicit toric zero over F_p^{pt}")
        if got != want: ck.violation("accepts" if got else "rejects", f"{lab}: isND says {got}, the toric derivatives have {'no' if want else 'a'} common zero" + (f" (one over F_{x['p']}^{pt})" if pt else ""), [c])
        if i % 250 == 0: ck.sample(f"{lab}: nondegenerate={want}")
    for i, y in enumerate(ys):
        c = y["c"]; z = res[c[0]]; n, d, p = y["n"], y["d"], y["p"]; lab = f"n={n} d={d} p={p} tries={c[2].get('tries', 'default')}"
        if not z.ok: ck.crashed(c, z, lab + ": the search did not return"); ck.observe(); continue
        M = y["M"]; ck.observe((c[0], "search"))
        if len(M) != n + 1 or any(len(q) != n + 1 for q in M): ck.violation("search:shape", f"{lab}: {M}", [c]); continue
        if any(map(any, M)):
            ck.count("model found")
            if not P.detmod(M, p): ck.violation("search:singular", f"{lab}: the matrix {M} is not invertible", [c])
            elif not y["g"] or not o[f"g{i}"][0]: ck.violation("search:degenerate", f"{lab}: substitution by {M} is degenerate; f={y['f']}", [c])
            if P.pfun(z, "g") != y["g"] and P.clean(P.pfun(z, "g"), p) != y["g"]: ck.violation("search:substitution", f"{lab}: substitution by {M} gives {P.pfun(z, 'g')}, expected {y['g']}", [c])
        else:
            ck.count("no model found"); k = sum(o[f"t{i}.{t}"][0] for t in range(6)); T = c[2].get("tries")
            if d % p and o[f"y{i}"][0]: ck.violation("search:missed identity", f"{lab}: the equation itself is nondegenerate, zero matrix returned", [c])
            if k >= 3 and (T is None or T >= 60): ck.violation("search:gave up", f"{lab}: {k} of 6 random substitutions are nondegenerate, the search found none", [c])
    return ck.finish(need=500)
