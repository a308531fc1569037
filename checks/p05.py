from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
JM = ["J", "Jc", "JZ0", "JZ1", "JZ2", "Jp0", "Jp1", "Jp2"]; NM = ["ND", "NDc", "NF", "NZ0", "NZ1", "NZ2", "Np0", "Np1"]
def constructors(ck, binary, shapes, ok, r):
    """one equation through every constructor of the two classes, and the equations the random constructors choose"""
    cs = []; meta = {}
    xs = work.curves(r, ck.scale(24, 400), 3, ok(3, 5, 31)) + work.curves(r, ck.scale(2, 30), 4, [3, 5, 7])
    for i, x in enumerate(xs):
        N = [r.randint(0, 2), r.randint(1, 2)]; prec = D.precision_for(2, x["p"], N)
        f = P.clean(x["f"], x["p"]); k = dict(p=x["p"], prec=prec, N=P.vec(N), showf=1)
        for cls in ("J", "ND") if x["nd"] else ("J",):
            for ct in ("mapZ", "mapz", "vecZ", "vecz"): c = run.case(f"k{i}.{cls}.{ct}", "frob", cls=cls, methods=cls, ctor=ct, **k, **P.fkv(f)); cs.append(c); meta[c[0]] = (x, f, prec)
    for i in range(ck.scale(16, 300)):
        d, p = (3, r.choice(ok(3, 5, 31))) if i % 8 else (4, r.choice([3, 5, 7])); cls = ("J", "ND")[i % 2]; N = [1, r.randint(1, 2)]; prec = D.precision_for(2, p, N)
        c = run.case(f"r{i}.{cls}", "frob", cls=cls, methods=cls, ctor="rand", seed=r.randrange(1 << 30), p=p, prec=prec, N=P.vec(N), showf=1, **P.fkv({(d, 0, 0): 1})); cs.append(c); meta[c[0]] = ({"n": 2, "d": d, "p": p, "fam": "random constructor", "cls": cls}, None, prec)
    cost = lambda c: 1 if meta[c[0]][0]["d"] == 4 else .1
    res = run.run(binary, cs, cpu=120, cost=cost); again = []; first = {}
    eqn = lambda z, m: {tuple(u): t % m for u, t in zip(P.pv(z["f.mon"]), P.pv(z["f.coef"])) if t % m}
    for c in cs:
        z = res[c[0]]; x, f, prec = meta[c[0]]; p = x["p"]; m = p ** prec; lab = f"n=2 d={x['d']} p={p} ({x['fam']}) precision={prec} class {c[2]['cls']} constructor {c[2]['ctor']}"
        if not z.ok: ck.crashed(c, z, lab + ": no object"); ck.observe(); continue
        g = eqn(z, m); F = z["F." + c[2]["cls"]]
        if f is None:
            ck.observe((c[0], str(sorted(g.items())))); ck.count("random constructor")
            if any(not 0 <= t < p or sum(u) != x["d"] for u, t in g.items()): ck.violation("random:equation", f"{lab}: equation {g}", [c]); continue
            if c[2]["cls"] == "ND" and not work.smooth_filter([{"f": g, "p": p, "n": 2, "d": x["d"], "fam": ""}]): ck.violation("random:singular", f"{lab}: the equation {g} is not smooth", [c])
            a = run.case("a" + c[0], "frob", **{k: v for k, v in c[2].items() if k not in ("mon", "coef", "ctor", "seed")}, **P.fkv(g)); again.append(a); meta[a[0]] = (x, g, prec, c, F)
        else:
            ck.observe((c[0], str(sorted(f.items())))); ck.count("constructor " + c[2]["ctor"])
            if g != f: ck.violation("constructor:equation:" + c[2]["ctor"], f"{lab}: built from {f}, holds {g}", [c])
            key = c[0].rsplit(".", 1)[0]
            if key not in first: first[key] = F
            elif F != first[key]: ck.violation("constructor:matrix:" + c[2]["ctor"], f"{lab}: another Frobenius matrix than through the map of p-adic coefficients: {F[:300]}", [c])
    for c, z in [(c, z) for res2 in [run.run(binary, again, cpu=120, cost=cost)] for c, z in ((c, res2[c[0]]) for c in again)]:
        x, g, prec, c0, F = meta[c[0]]
        if not z.ok: ck.crashed(c, z, f"the equation {g} chosen by the random constructor mod {x['p']}"); continue
        ck.observe((c[0], "again"))
        if z["F." + c[2]["cls"]] != F: ck.violation("random:matrix", f"p={x['p']}: the object built by the random constructor has another Frobenius matrix than the one of its equation {g}", [c0, c])
def main():
    ck = Check("P05", rule="every implementation of the Frobenius columns on one object, in a random order of methods and of columns; nontrivial when a compared column is nonzero; distinct by (equation, p, truncation, precision, method, column)",
               assumptions=["agreement of the two algorithms is required to the digits the truncation leaves (DESIGN.md, P24)"])
    B = build.build("plain", ["core", "tools"]); r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    # default truncations
    shapes = {}; dc = []
    def want(n, d, p):
        if (n, d, p) not in shapes: shapes[n, d, p] = None; dc.append(run.case(f"d{n}.{d}.{p}", "default_args", n=n, d=d, p=p))
    items = []
    def add(xs, ms=None, cols=None, extra=1): items.extend((x, ms, cols, extra) for x in xs)
    add(work.curves(r, ck.scale(120, 3000), 3, ok(3, 5, 47)))
    add(work.curves(r, ck.scale(12, 300), 3, ok(3, 53, 131)), extra=0)
    add(work.curves(r, ck.scale(14, 300), 4, ok(4, 3, 19)))
    add(work.curves(r, ck.scale(4, 60), 4, ok(4, 23, 43)), cols=2, extra=0)
    add(work.curves(r, ck.scale(2, 30), 5, ok(5, 3, 11)), cols=2, extra=0)
    for x in work.large(r, ck.scale(16, 300), ck.scale(2, 30), 0, ck.scale(1500, 20000), d3=700): add([x], ms=[m for m in r.sample(JM[:4] + ["Jp0"], 2) + r.sample(["ND", "NDc", "NF", "NZ0", "Np0", "NZ1", "Np1"], 4)], cols=2, extra=0)
    k3 = [x for x in work.curves(r, ck.scale(30, 80), 4, [5, 7, 11], ["diag"], n=3) if x["nd"] and len(P.clean(x["f"], x["p"])) <= 5]
    add(k3[:ck.scale(1, 12)], ms=["JZ0", "Jp0", "NDc", "NZ0", "Np0"], cols=2, extra=0)
    k33 = [x for x in work.curves(r, ck.scale(60, 200), 4, [3], ["diag"], n=3) if x["nd"]]
    add(k33[:ck.scale(1, 8)], ms=["JZ0", "Jp0", "Jp1", "NF", "NZ0"] if ck.quick else None, cols=2, extra=0)
    # p <= n: poles of order up to n, that the reduction starts below
    low = {}
    for x in [x for x in work.curves(r, ck.scale(40, 120), 4, [3], ["diag", "inv", "degenerate", "sparse"], n=3) if len(P.clean(x["f"], 3)) <= 7][:ck.scale(10, 60)]: low[id(x)] = r.choice([[1, 1, 1], [2, 1, 0], [1, 0, 2], [2, 2, 0], [3, 1, 1], [1, 0, 0]]); add([x], ms=[m for m in JM + (["ND", "NDc", "NF", "NZ0", "Np0"] if x["nd"] else []) if m not in ("JZ2", "Jp2")], cols=3, extra=0)
    # moduli that fill one machine word (or pass it)
    word = {}
    for x in work.curves(r, ck.scale(24, 400), 3, [19, 23, 29]) + work.curves(r, ck.scale(8, 100), 3, [53, 79, 83, 131, 137]) + work.curves(r, ck.scale(2, 20), 4, [3, 19, 23, 79]): word[id(x)] = 64; add([x], cols=2 if x["d"] == 4 or x["p"] > 50 else None)
    for x in work.curves(r, ck.scale(16, 300), 3, ok(3, 5, 61)): word[id(x)] = 0; add([x])
    # very many terms: the coefficients of the expansion pass one machine word
    long_ = {}
    for x in work.fermat(r, ck.scale(2, 10), 3, [5, 7]): long_[id(x)] = r.randint(62, 71); add([x], ms=(r.sample(["ND", "NF", "NDc", "NZ0"], 1) + ["Np0"] if len(long_) % 2 else r.sample(["J", "Jc", "JZ0"], 1) + ["Jp0"]))
    for x, *_ in items: want(x["n"], x["d"], x["p"])
    for k, v in run.run(B["tools"], dc, cpu=60).items(): 
        n, d, p = map(int, k[1:].split(".")); shapes[n, d, p] = (P.pv(v["N"]), int(v["precision"]))
    cases = []; meta = {}; cost = {}
    for i, (x, ms, cols, extra) in enumerate(items):
        n, d, p = x["n"], x["d"], x["p"]; N, prec = shapes[n, d, p]; N = list(N)
        if id(x) in long_: N = [r.randint(0, 2), long_[id(x)]]; prec = D.precision_for(n, p, N)
        elif id(x) in low: N = list(low[id(x)]); prec = D.precision_for(n, p, N) + r.choice([0, 1, 7]); ck.count("p <= n")
        elif id(x) in word:
            w = D.word_precisions(p, prec, (64,)) if word[id(x)] else D.word_precisions(p, prec); prec = r.choice(w or [prec]); ck.count("moduli of %d bits" % (p ** prec).bit_length())
        elif extra and r.random() < .7:
            N = [max(0, a + r.choice([0, 0, 1, 2])) for a in N]; prec = max(prec, D.precision_for(n, p, N)) + r.choice([0, 0, 1, 4, 25])
        elif n == 3: N = [min(a, 2) for a in N]; prec = max(2, D.precision_for(n, p, N))
        elif n == 2 and r.random() < .3:
            k = r.randrange(n); N[k] = max(1, N[k] - 1); prec = max(1, prec)
        nd = x["nd"]; m = list(ms or (JM + NM))
        if not nd: m = [a for a in m if a[0] != "N"]
        if ms is None and d >= 4 and p > 11: m = [a for a in m if a not in ("JZ2", "Jp2", "NZ2")]
        r.shuffle(m); f = x["f"]
        ctor = r.choice(["mapZ", "mapZ", "vecZ", "mapz", "vecz"]); 
        if id(x) in long_: ctor = r.choice(["mapZ", "mapz"])
        if ctor in ("mapZ", "vecZ") and id(x) not in long_ and r.random() < .5: f = P.any_lift(r, f, p, r.random() < .3)
        c = run.case(f"f{i}", "frob", p=p, prec=prec, N=P.vec(N), cls="ND" if nd else "J", methods=" ".join(m), ctor=ctor, order=r.randrange(1 << 30), maxcols=cols, lowfirst=1 if id(x) in low else 0, **P.fkv(f))
        cases.append(c); cost[c[0]] = 40 if id(x) in long_ else (work.cost(n, d, p) * 3 if n == 2 else 12 if id(x) not in low else 6) * max(1, sum(N) - 3) * (0.4 if d > 4 else 1); meta[c[0]] = (x, N, prec, m, nd)
    res = run.run(B["core"], cases, cpu=ck.scale(120, 3000), cost=lambda c: cost[c[0]], mem=8000)
    for c in cases:
        z = res[c[0]]; x, N, prec, m, nd = meta[c[0]]; n, d, p = x["n"], x["d"], x["p"]; lab = f"n={n} d={d} p={p} N={N} precision={prec} ({x['fam']}, {'nondegenerate' if nd else 'degenerate'})"; q = p ** prec
        if not z.ok:
            ck.crashed(c, z, lab + ": a method did not return"); ck.observe(); continue
        bas = P.pv(z["basis"]); b = len(bas); order = [(sum(u) + n + 1) // d for u in bas]; key = (tuple(sorted(x["f"].items())), p, tuple(N), prec)
        ref = {}; first = {}
        for g in "JN":
            # reference: the first method of the group that computed the column
            for a in m:
                if a[0] != g: continue
                F = P.pv(z["F." + a]); cols = P.pv(z["C." + a]) if "C." + a in z else [j for j in range(b)]
                if len(F) != b or any(len(w) != b for w in F): ck.violation("shape:" + a, f"{lab}: {a} returns a matrix of the wrong size", [c]); continue
                for j in cols:
                    col = tuple(F[i][j] for i in range(b))
                    if N[order[j] - 1] <= 0:
                        if any(col): ck.violation("zero-terms:" + a, f"{lab}: {a} returns a nonzero column {j} for no terms", [c])
                        continue
                    if any(not 0 <= t < q for t in col): ck.violation("range:" + a, f"{lab}: {a} column {j} not reduced", [c])
                    if (g, j) not in ref: ref[g, j] = col; first[g, j] = a
                    else:
                        ck.observe((key, a, j) if any(col) else None); ck.count(f"compared {a}")
                        if col != ref[g, j]: ck.violation(f"methods:{min(a, first[g, j])}:{max(a, first[g, j])}", f"{lab}: column {j} (basis {bas[j]}): {a} gives {col}, {first[g, j]} gives {ref[g, j]}", [c])
        for j in range(b):
            if ("J", j) in ref and ("N", j) in ref:
                k = D.digits(n, p, order[j], N[order[j] - 1], prec); k = min(k, prec)
                if k > 0:
                    ck.observe((key, "J/ND", j) if any(t % p ** k for t in ref["J", j]) else None); ck.count("compared J with ND"); ck.count("digits compared", k)
                    if any((s - t) % p ** k for s, t in zip(ref["J", j], ref["N", j])): ck.violation("J/ND", f"{lab}: column {j} (basis {bas[j]}): J gives {ref['J', j]}, ND {ref['N', j]}: differ mod {p}^{k}", [c])
        if r.random() < .03: ck.sample(f"{lab}: methods {' '.join(m)} agree on {len(ref)} columns")
    constructors(ck, B["core"], shapes, ok, r)
    return ck.finish(need=ck.scale(1500, 20000))
