import re, os, subprocess, tempfile, concurrent.futures as cf
from vlib import build, run, poly as P, weil as W, work
from vlib.verdict import Check
TERM = re.compile(r"\(([^()]*)\): (-?\d+)")
def human(s):
    body = s.strip(); ok = body.startswith("{") and body.endswith("}"); L = [(tuple(int(x) for x in a.split(",")) if a.strip() else (), int(c)) for a, c in TERM.findall(body)]
    rest = TERM.sub("T", body[1:-1]); ok = ok and re.fullmatch(r"\s*(T(,\s*T)*)?\s*", rest) is not None
    return ok, L
def texts(ck, B, r):
    cases = []; meta = {}
    for i in range(ck.scale(900, 12000)):
        n = r.randint(1, 6); k = r.choice([0, 1, 2, 3, 8, 30] * 6 + [70, 150, 300]); mag = r.choice([1, 100, 10 ** 19, 10 ** 60]); f = {}
        for _ in range(k): f[tuple(r.choice([0, 1, r.randint(0, 40)]) for _ in range(n))] = r.choice([0, r.randint(-mag, mag), r.randint(-mag, mag)])
        kw = {}; its = list(f.items()); r.shuffle(its)
        sp = lambda: "".join(r.choice(["", " ", "~", "  "]) for _ in range(r.randint(0, 2)))
        kw["text"] = sp() + "[" + sp() + (" " + sp()).join("[" + sp() + (" " + sp()).join(map(str, u)) + sp() + "]" for u, _ in its) + sp() + "]" + sp() + "~[" + (" " + sp()).join(str(c) for _, c in its) + "]" + r.choice(["", "~"])
        if r.random() < .5: kw["mod"] = r.choice([3, 49, 10 ** 20 + 39, 7 ** 50])
        if r.random() < .5: kw["p"] = r.choice([3, 7, 10007])
        c = run.case(f"t{i}", "mapio", dirty=r.randrange(2) if f else 0, **kw, **P.fkv(f)); cases.append(c); meta[c[0]] = (f, kw)
    for i in range(ck.scale(200, 3000)):
        a, b = r.choice([(r.randint(1, 5), r.randint(1, 5))] * 4 + [(r.randint(1, 70), r.randint(1, 70))]); M = [[r.randint(-10 ** 30, 10 ** 30) * r.randrange(2) for _ in range(b)] for _ in range(a)]; v = [r.randint(-9, 10 ** 25) for _ in range(r.choice([r.randint(1, 6), r.randint(1, 150)]))]; c = run.case(f"h{i}", "humanio", M=P.mat(M), v=P.vec(v)); cases.append(c); meta[c[0]] = (M, v)
    res = run.run(B, cases, cpu=20)
    for c in cases:
        z = res[c[0]]
        if not z.ok: ck.crashed(c, z, f"{c[1]} on {str(meta[c[0]])[:200]}"); ck.observe(); continue
        def bad(k, t): ck.violation(f"{c[1]}:{k}", t[:1200], [c])
        if c[1] == "humanio":
            M, v = meta[c[0]]; ck.observe(c[0]); nums = lambda s: [int(x) for x in re.findall(r"-?\d+", s)]
            if nums(z["M"]) != [x for row in M for x in row]: bad("matrix", f"{M} shown as {z['M']}")
            if nums(z["v"]) != v: bad("vector", f"{v} shown as {z['v']}")
            if nums(z["x"]) != v[:1]: bad("number", f"{v[0]} shown as {z['x']}")
            continue
        f, kw = meta[c[0]]; ck.observe(c[0] if f else None); ck.count("texts"); ck.count("empty polynomials", not f)
        if z["fail"] != "0" or z["same"] != "1" or P.pfun(z, "back") != f: bad("round trip", f"{f} written as {z['text']} read back as {P.pfun(z, 'back')}")
        t = P.parse(z["text"])
        if len(t) != 2 or {tuple(u): x for u, x in zip(*t)} != f or len(t[0]) != len(f): bad("written", f"{f} written as {z['text']}")
        if P.pfun(z, "parsed") != f: bad("read", f"{kw['text']} read as {P.pfun(z, 'parsed')}")
        ok, L = human(z["human"])
        if not ok or len(L) != len(f) or dict(L) != f: bad("human", f"{f} shown as {z['human']}")
        if "mod" in kw:
            ok, L = human(z["humanZp"])
            if z["sameZp"] != "1": bad("round trip mod", f"{f} mod {kw['mod']} changed by writing and reading")
            if not ok or len(L) != len(f) or dict(L) != {u: x % kw["mod"] for u, x in f.items()}: bad("human mod", f"{f} mod {kw['mod']} shown as {z['humanZp']}")
        if "p" in kw and z["samezp"] != "1": bad("round trip p", f"{f} mod {kw['p']} changed by writing and reading")
def entries(ck, B, r):
    ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    xs = work.curves(r, ck.scale(100, 1500), 3, ok(3, 5, 97)) + work.curves(r, ck.scale(14, 200), 4, ok(4, 3, 43)); cases = []; cost = {}
    if not ck.quick: xs += work.curves(r, 6, 5, ok(5, 3, 13))
    for i, x in enumerate(xs):
        p = x["p"]; f = x["f"] if r.random() < .3 else P.any_lift(r, x["f"], p); big = r.random() < .25
        if big: f = P.any_lift(r, f, p, True)
        if r.random() < .3: f = dict(f); f.update({u: 0 for u in r.sample(P.tuples(x["d"], x["n"] + 1), 2) if u not in f})
        kw = dict(seed=r.randrange(1 << 40), better=r.choice([1, 1, 0]), threads=r.choice([1, 1, 3])); x["F"] = f
        if p > 20 and r.random() < .3: kw.update(abs=r.choice([1, 2, 3]), inc=r.randrange(2))
        for via in ["map", "string", "vecZZ"] + ([] if big else ["vecint"]):
            its = list(f.items())
            if via != "map": r.shuffle(its)
            c = run.case(f"{i}{via}", "zeta", p=p, via=via, **kw, **P.fkv(dict(its))); cases.append(c); cost[c[0]] = work.cost(x["n"], x["d"], p, x["nd"])
    res = run.run(B, cases, cpu=ck.scale(120, 3000), cost=lambda c: cost[c[0]]); by = {}
    for c in cases: by.setdefault(re.match(r"\d+", c[0])[0], []).append(c)
    for i, x in enumerate(xs):
        cs = by[str(i)]; ref = None; lab = f"n={x['n']} d={x['d']} p={x['p']} ({x['fam']}) {({k: v for k, v in cs[0][2].items() if k not in ('mon', 'coef', 'p', 'via')})}"
        for c in cs:
            z = res[c[0]]; ck.observe(c[0]); ck.count("entry " + c[2]["via"])
            if not z.ok: ck.crashed(c, z, f"{lab} through {c[2]['via']}"); continue
            if ref is None: ref = (c, z)
            else:
                for k in ("zeta", "frob"):
                    if z[k] != ref[1][k]: ck.violation(f"entry:{c[2]['via']}:{k}", f"{lab}: {k} through {ref[0][2]['via']} {ref[1][k][:300]}, through {c[2]['via']} {z[k][:300]}", [ref[0], c])
        if ref: x["zeta"] = P.pv(ref[1]["zeta"]); x["case"] = ref[0]
    return xs
def cli(ck, exe, tools, xs, r):
    """the command line program, on dense coefficient vectors in the documented order"""
    todo = [x for x in xs if "zeta" in x and "abs" not in x["case"][2] and x["d"] == 4][:ck.scale(8, 100)] + [x for x in xs if "zeta" in x and "abs" not in x["case"][2] and x["d"] == 3][:ck.scale(24, 300)]
    tab = run.run(tools, [run.case(f"{i}", "default_args", p=x["p"], n=x["n"], d=x["d"]) for i, x in enumerate(todo)], cpu=10)
    with tempfile.TemporaryDirectory(prefix="crx") as tmp:
        def go(t):
            i, x = t; n, d, p = x["n"], x["d"], x["p"]; z = tab[str(i)]; f = x["F"]; a = f"{tmp}/{i}.in"; b = f"{tmp}/{i}.out"; red = r.random() < .5
            with open(a, "w") as h: h.write(f"{p}\n{z['precision']}\n{n}\n{d}\n" + P.vec([f.get(u, 0) % p if red else f.get(u, 0) for u in P.tuples(d, n + 1)]) + f"\n{z['N']}\n{z['cp']}\n")
            q = subprocess.run([exe, str(r.choice([1, 2])), a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
            return q.returncode, q.stdout, (open(b).read() if os.path.exists(b) else ""), open(a).read()
        with cf.ThreadPoolExecutor(8) as ex: out = list(ex.map(go, enumerate(todo)))
    for x, (rc, so, o, inp) in zip(todo, out):
        lab = f"examples/frob on n={x['n']} d={x['d']} p={x['p']} ({x['fam']})"; ck.observe(inp); ck.count("command line program")
        if rc or not o: ck.violation("cli:failed", f"{lab}: exit {rc}: {so[-400:]}", [x["case"]], inp); continue
        v = P.parse(o.replace("\n", " "))  # p precision n d f N digits M f Frob cp rank wall user
        L = [y for y in v if isinstance(y, list)]; f, N, dig, M, g, F, cp = L[:7]; n, d, p = x["n"], x["d"], x["p"]; T = P.tuples(d, n + 1)
        if cp != x["zeta"]: ck.violation("cli:zeta", f"{lab}: {cp}, the library function gives {x['zeta']}", [x["case"]], inp)
        if [c % p for c in f] != [x["F"].get(u, 0) % p for u in T]: ck.violation("cli:echo", f"{lab}: equation echoed as {f}", [x["case"]], inp)
        if any(map(any, M)):
            w = P.subst(P.clean(x["F"], p), M, p)
            if g != [w.get(u, 0) for u in T]: ck.violation("cli:model", f"{lab}: model {g} is not the substitution by {M}", [x["case"]], inp)
def main():
    ck = Check("P21", rule="random polynomials (also the zero one) written, read back, read from shuffled text with irregular blanks, and shown in the readable form, over integers and residue rings; the same equation passed as text, integer vector, big-integer vector (terms shuffled) and map under every kind of option and compared exactly; the command line program on the dense vector of the same equation; nontrivial when the polynomial is not empty, distinct by case")
    B = build.build("plain", ["tools", "zeta", "cli"]); r = ck.rng; texts(ck, B["tools"], r); xs = entries(ck, B["zeta"], r); cli(ck, B["cli"], B["tools"], xs, r); ck.sample(f"{len(xs)} equations through every entry point, e.g. {xs[0]['F']} mod {xs[0]['p']}")
    return ck.finish(need=700)
