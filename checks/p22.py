import os, shutil, tempfile
from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
def singular(r, n, d, p, how):
    nv = n + 1; T = P.tuples(d, nv)
    if how == "point":      # a rational singular point, moved anywhere
        f = {u: r.randrange(p) for u in T if u[0] <= d - 2}; return P.subst(f, P.rand_gl(r, nv, p), p)
    if how == "vertex": return {u: r.randrange(p) for u in T if u[0] <= d - 2}
    if how == "product":    # singular where the factors meet, in general only over an extension
        a = r.randint(1, d - 1); return P.mulp({u: r.randrange(p) for u in P.tuples(a, nv)}, {u: r.randrange(p) for u in P.tuples(d - a, nv)}, p)
    if how == "cone": f = {u: r.randrange(p) for u in T if u[-1] == 0}; return P.subst(f, P.rand_gl(r, nv, p), p) if r.random() < .5 else f
    if how == "power": return {P.pw(d, nv, i): r.randrange(1, p) for i in range(n)}
    if how == "zero": return {u: 0 for u in r.sample(T, 3)}
    if how == "torus":      # sparse, singular at a point without zero coordinates
        f = {u: r.randrange(1, p) for u in r.sample(T, min(len(T), r.randint(4, 7)))}; return f
    raise KeyError(how)
def main():
    ck = Check("P22", level="fault_enumeration", rule="inputs of every unsupported kind (singular modulo p in seven ways, also where the integer equation is smooth; degree divisible by p; p = 2; dimension or degree outside the table; lengths that differ; inhomogeneous or malformed equations; too small primes for a requested precision; unreadable, foreign, truncated files) through every entry point, constructor and option; each one must end without a result; every group also holds supported twins that must be answered; nontrivial: every distinct unsupported input",
               assumptions=["a diagnosed end of the process is the library's way of reporting a failure"])
    B = build.build("plain", ["zeta", "core", "tools"]); r = ck.rng; cases = {"zeta": [], "core": [], "tools": []}; info = {}
    def add(b, kind, cmd, good=False, **kw):
        c = run.case(f"{len(info)}", cmd, **kw); cases[b].append(c); info[c[0]] = (kind, good, c, b)
    def opts(): return dict(better=r.choice([0, 1]), threads=r.choice([1, 1, 2, 4]), seed=r.randrange(1 << 30))
    def vias(): return r.choice(["map", "string", "vecint", "vecZZ"])
    # singular equations, confirmed by the oracle; the integer coefficients usually define a smooth equation
    sing = []
    for i in range(ck.scale(420, 4000)):
        n, d = r.choice([(2, 3), (2, 3), (2, 4), (2, 4), (2, 5), (3, 4), (2, 6), (3, 5)] if i % 3 else [(2, 3), (2, 4)]); p = r.choice([q for q in P.primes(3, 31 if n == 2 else 11) if d % q]); how = r.choice(["point", "vertex", "product", "cone", "power", "zero", "torus"])
        if n == 3 and d == 5 and how == "torus": how = "point"
        sing.append({"f": singular(r, n, d, p, how), "p": p, "n": n, "d": d, "how": how})
    sing = [x for x in sing if x["f"]]
    live = [x for x in sing if P.clean(x["f"], x["p"])]; o = work.oracle([P.oline(f"{i}", "smooth", x["p"], 1, x["f"]) for i, x in enumerate(live)])
    bad = [x for i, x in enumerate(live) if not o[f"{i}"][0]] + [x for x in sing if not P.clean(x["f"], x["p"])]
    for x in bad:
        f = x["f"] if r.random() < .3 else P.any_lift(r, {u: x["f"].get(u, 0) for u in P.tuples(x["d"], x["n"] + 1)} if r.random() < .7 else x["f"], x["p"])
        kw = opts()
        if x["p"] >= 17 and r.random() < .3: kw.update(abs=2, inc=r.randrange(2))
        add("zeta", "singular:" + x["how"], "zeta", p=x["p"], via=vias(), **kw, **P.fkv(f))
        if x["n"] == 2 and P.clean(f, x["p"]): 
            for cls in ("J", "ND"):
                if r.random() < .6 and x["d"] < 6: add("core", "constructor:" + cls, "frob", p=x["p"], prec=r.choice([1, 3, 8]), N="[1 2]", cls=cls, methods=cls, ctor=r.choice(["mapZ", "mapz", "vecZ", "vecz"]), **P.fkv(f))
        if r.random() < .5 and P.clean(f, x["p"]): add("core", "singular tests", "smooth", p=x["p"], nd=1, **P.fkv({u: c % x["p"] for u, c in f.items()}))
    good = work.curves(r, ck.scale(50, 500), 3, [p for p in P.primes(5, 61)]) + work.curves(r, ck.scale(12, 120), 4, P.primes(3, 23))
    for x in good:
        p, d, f = x["p"], x["d"], x["f"]; mon = list(f); co = list(f.values()); kw = opts()
        add("zeta", "supported", "zeta", good=True, p=p, via=vias(), **kw, **P.fkv(f))
        # lengths
        for via in ("string", "vecint", "vecZZ"):
            k = r.randint(1, len(co)); q = r.random()
            add("zeta", "lengths:" + via, "zeta", p=p, via=via, mon=P.mons(mon), coef=P.vec(co[:-k] if q < .5 else co + [r.randrange(p) for _ in range(k)]), **kw)
            if q < .3: add("zeta", "lengths:" + via, "zeta", p=p, via=via, mon=P.mons(mon[:-1]), coef=P.vec(co), **kw)
            if q > .7: add("zeta", "lengths:" + via, "zeta", p=p, via=via, mon="[]", coef=P.vec(co), **kw); add("zeta", "empty:" + via, "zeta", p=p, via=via, mon="[]", coef="[]", **kw)
        add("zeta", "empty:map", "zeta", p=p, via="map", mon="[]", coef="[]", **kw)
        # monomials with another number of variables, other degrees
        for via in ("map", "string", "vecint", "vecZZ"):
            u = r.choice([(d - 1, 1), (d - 1, 1, 0, 0), (d,), ()]); g = dict(f); g[u] = 1; L = list(g.items()); r.shuffle(L); add("zeta", "variables:" + via, "zeta", p=p, via=via, **kw, **P.fkv(dict(L)))
        # text
        t = f"{p}~{P.mons(mon)}~{P.vec(co)}"
        for tx in ("", f"{p}", f"{p}~{P.mons(mon)}", f"{p}~{P.mons(mon)}~{P.vec(co)}"[:r.randrange(2, len(t))].rstrip("0123456789") , f"{P.mons(mon)}~{P.vec(co)}", f"{p}~x^{d}+y^{d}+z^{d}", t.replace("[", "(").replace("]", ")"), f"{p}~{P.mons(mon)}~{P.vec(co)[:-1]} q]"): add("zeta", "text", "zeta", via="text", text=tx, **kw)
        # requested precision beyond what a small prime allows
        if p <= 2 * 2 + 20: add("zeta", "precision", "zeta", p=p, abs=max(1, p - 3 + r.choice([0, 0, 0, 1, 2, 4])), inc=r.randrange(2), via=vias(), **kw, **P.fkv(f))
    # degree divisible by p
    for i in range(ck.scale(60, 600)):
        n, d = r.choice([(2, 3), (2, 5), (2, 6), (3, 5), (2, 9)]); p = r.choice([q for q in (3, 5) if d % q == 0]); f = P.FAMS[r.choice(["dense", "sparse", "diag", "full", "inv"])](r, n, d, p)
        if not P.clean(f, p): continue
        add("zeta", "p divides d", "zeta", p=p, via=vias(), **opts(), **P.fkv(P.any_lift(r, f, p)))
        if n == 2 and d < 6: add("core", "p divides d: constructor", "frob", p=p, prec=5, N="[1 2]", cls=r.choice(["J", "ND"]), methods="J", ctor=r.choice(["mapZ", "mapz", "vecZ", "vecz"]), **P.fkv(f))
    # p = 2
    for x in work.curves(r, ck.scale(30, 200), 3, [2], ["dense", "sparse", "inv", "diag"]): add("zeta", "p = 2", "zeta", p=2, via=vias(), **opts(), **P.fkv(P.any_lift(r, x["f"], 2)))
    # outside the table
    for i in range(ck.scale(60, 500)):
        n, d = r.choice([(1, 2), (1, 3), (1, 5), (2, 1), (2, 2), (3, 2), (3, 3), (3, 7), (4, 3), (4, 5), (5, 3), (2, 10), (2, 11), (0, 2), (4, 4)]); p = r.choice([q for q in P.primes(5, 23) if d % q])
        f = {P.pw(d, n + 1, k): r.randrange(1, p) for k in range(n + 1)}; f.update({u: r.randrange(p) for u in r.sample(P.tuples(d, n + 1), min(2, len(P.tuples(d, n + 1))))}); add("zeta", f"outside:{n}.{d}", "zeta", p=p, via=vias(), **opts(), **P.fkv(f))
        add("tools", f"table:{n}.{d}", "default_args", n=n, d=d, p=p, dirty=r.randrange(2))
    for n, d in [(2, 3), (2, 9), (3, 4), (3, 6)]: add("tools", "supported", "default_args", good=True, n=n, d=d, p=101)
    # vectors of the wrong length, a smooth but degenerate equation for the nondegenerate class
    for x in good[:ck.scale(40, 300)]:
        p, d, f = x["p"], x["d"], x["f"]
        if d != 3: continue
        for cls in ("J", "ND"):
            if cls == "J" or x["nd"]: add("core", "supported", "frob", good=True, p=p, prec=6, N="[1 2]", cls=cls, methods=cls, ctor=r.choice(["vecZ", "vecz"]), **P.fkv(f))
            for cut in r.sample([1, -1, 3, -5], 2): add("core", "vector length:" + cls, "frob", p=p, prec=6, N="[1 2]", cls=cls, methods=cls, ctor=r.choice(["vecZ", "vecz"]), cut=cut, **P.fkv(f))
        if not x["nd"]: add("core", "degenerate", "frob", p=p, prec=6, N="[1 2]", cls="ND", methods="ND", ctor=r.choice(["mapZ", "mapz", "vecZ", "vecz"]), **P.fkv(f))
    tmp = tempfile.mkdtemp(prefix="crx")
    try:
        # files
        saves = []
        for i, x in enumerate([x for x in good if x["d"] == 3][:ck.scale(10, 60)]):
            for cls in ("J", "ND") if x["nd"] else ("J",):
                c = run.case(f"save{i}{cls}", "save", p=x["p"], prec=4, N="[1 2]", cls=cls, file=f"{tmp}/{i}{cls}", suffix=".2", warm=i % 2, us="[[1 1 1]]", **P.fkv(x["f"])); saves.append((c, x))
        sv = run.run(B["core"], [c for c, x in saves], cpu=60)
        os.mkdir(tmp + "/dir"); open(tmp + "/empty", "w").close(); open(tmp + "/text", "w").write("hello world\n" * 40); open(tmp + "/bin", "wb").write(bytes(range(256)) * 20)
        for c, x in saves:
            if not sv[c[0]].ok: ck.crashed(c, sv[c[0]], "saving a supported object"); continue
            k = dict(p=c[2]["p"], prec=4, N="[1 2]", cls=c[2]["cls"]); fn = c[2]["file"]; data = open(fn, "rb").read(); p = x["p"]
            add("core", "supported", "load", good=True, file=fn, **k)
            for nm in ("/missing", "/dir", "/empty", "/text", "/bin", "/dir/none"): add("core", "file:" + nm[1:], "load", file=tmp + nm, **k)
            q = r.choice([q for q in (5, 7, 11, 13, 29) if q != p]); add("core", "file:other prime", "load", file=fn, **dict(k, p=q)); add("core", "file:other precision", "load", file=fn, **dict(k, prec=r.choice([1, 3, 5, 9])))
            # the file of the other class: J files hold less than an ND object needs
            if c[2]["cls"] == "J": add("core", "file:other class", "load", file=fn, **dict(k, cls="ND"))
            for j in range(ck.scale(4, 12)):
                off = r.randrange(max(1, len(data) - 2)) if j else 0; g = f"{fn}.cut{j}"; open(g, "wb").write(data[:off]); add("core", "file:cut", "load", file=g, **k)
            # the sizes inside the file no longer fit together
            s = data.decode(); L = s.split("\n")
            g = fn + ".deg"; nums = s.split(None, 6)
            for pos, delta in ((4, 1), (5, 1), (4, -1), (5, -1)):
                a = s.split(None, 6); a[pos] = str(int(a[pos]) + delta); open(f"{g}{pos}{delta}", "w").write("\n".join(a)); add("core", "file:sizes", "load", file=f"{g}{pos}{delta}", **k)
        # decisions
        limit = 8000
        for b in cases:
            res = run.run(B[b], cases[b], cpu=ck.scale(60, 200), mem=limit, chunk=12 if b != "tools" else 30)
            for c in cases[b]:
                kind, isgood, _, _ = info[c[0]]; z = res[c[0]]; txt = {k: v for k, v in c[2].items()}
                if isgood:
                    ck.observe(); ck.count("supported twins answered", z.ok)
                    if not z.ok: ck.crashed(c, z, "a supported input")
                    continue
                ck.observe(c[0]); ck.count(kind.split(":")[0])
                if c[1] == "smooth":
                    if not z.ok: ck.crashed(c, z, "smoothness test of a singular equation")
                    elif z["smooth"] != "0" or z["nd"] != "0": ck.violation("accepted:smooth", f"a singular equation passes the tests (smooth {z['smooth']}, nondegenerate {z['nd']}): {txt}"[:900], [c])
                    continue
                got = {k: v for k, v in z.items() if k not in (">", "sched", "basis")}
                if z.ok: ck.violation("answered:" + kind, f"{kind}: returned {str(got)[:300]} for {str(txt)[:600]}", [c])
                elif z.status == "hang": ck.violation("hang:" + kind, f"{kind}: neither refused nor answered within the limit: {str(txt)[:600]}", [c])
                elif z.rc in (-11, -7, -8, -4): ck.violation("fault:" + kind, f"{kind}: the process dies with signal {-z.rc} instead of a reported failure: {str(txt)[:600]}", [c])
                else:
                    if any(k in got for k in ("zeta", "F.J", "F.ND", "F", "precision")): ck.violation("answered:" + kind, f"{kind}: result delivered before the end: {str(got)[:300]} for {str(txt)[:600]}", [c])
                    if r.random() < .006: ck.sample(f"{kind}: {' '.join(z.err.split())[-160:]}")
        return ck.finish(need=ck.scale(600, 5000))
    finally: shutil.rmtree(tmp, ignore_errors=True)
