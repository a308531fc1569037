from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
def main():
    ck = Check("P23", rule="every computation first in a process of its own, then in shuffled sequences with other primes, dimensions, degrees, options and entry points in one process, with moduli of the caller installed and junk in the outputs, and repeated without reseeding; nontrivial when the computation was preceded by a different one in the same process; distinct by (computation, predecessor)")
    B = build.build("plain", ["zeta", "core"]); r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]; items = []; cost = {}
    def add(cmd, x, **kw): items.append((cmd, x, dict(kw, p=x["p"], **P.fkv(x["f"])))); cost[len(items) - 1] = work.cost(x["n"], x["d"], x["p"], x["nd"])
    pool = work.curves(r, ck.scale(90, 700), 3, ok(3, 5, 61)) + work.curves(r, ck.scale(24, 200), 4, ok(4, 3, 31)) + work.curves(r, ck.scale(2, 12), 5, ok(5, 3, 11)) + work.large(r, ck.scale(14, 100), ck.scale(2, 16), 0, ck.scale(5000, 30000), d3=400); surf = work.curves(r, 12, 4, [7], ["diag"], n=3)
    for x in pool:
        kw = dict(seed=r.randrange(1 << 40), better=r.choice([1, 1, 0]), threads=r.choice([1, 1, 2, 3]), via=r.choice(["map", "string", "vecint", "vecZZ"]))
        if 20 < x["p"] < 1000 and x["d"] < 5 and r.random() < .4: kw.update(abs=r.randint(1, 4), inc=r.randrange(2))
        if r.random() < .15: kw["verbose"] = 1
        add("zeta", x, **kw)
    nd = [x for x in surf if x["nd"] and len(P.clean(x["f"], 7)) <= 4][:ck.scale(0, 2)]
    for x in nd: add("zeta", x, seed=3, better=0)
    for x in work.curves(r, ck.scale(30, 250), 3, ok(3, 5, 43)) + work.curves(r, ck.scale(8, 60), 4, ok(4, 3, 17)):
        N = [r.randint(1, 3), r.randint(1, 4)]; q = D.precision_for(2, x["p"], N) + r.choice([0, 2, 30]); cls = "ND" if x["nd"] and r.random() < .6 else "J"
        add("frob", x, N=P.vec(N), prec=q, cls=cls, methods="ND NF J" if cls == "ND" else "J Jc", threads=r.choice([1, 2]), ctor=r.choice(["mapZ", "mapz", "vecZ", "vecz"]))
        if r.random() < .5: add("coords", x, prec=q, cls=cls, us=P.mons(r.sample([tuple(a + 1 for a in u) for u in P.tuples(x["d"] * r.randint(1, 3) - 3, 3)], 1) + r.sample([tuple(a + 1 for a in u) for u in P.tuples(x["d"] * 2 - 3, 3)], 6)), everything=r.randrange(2))
        if r.random() < .5: add("smooth", x)
        if r.random() < .5: add("fcov", x, seed=r.randrange(1 << 30), tries=200)
    bin_of = lambda cmd: "zeta" if cmd == "zeta" else "core"; big = lambda i: cost[i]
    mk = lambda name, i, **kw: run.case(name, items[i][0], **dict(items[i][2], **kw))
    ref = {}
    for b in ("zeta", "core"):
        cs = [mk(f"r{i}", i) for i in range(len(items)) if bin_of(items[i][0]) == b]
        ref.update(run.run(B[b], cs, cpu=ck.scale(120, 2000), chunk=1, cost=lambda c: cost[int(c[0][1:])]))
    for i, (cmd, x, kw) in enumerate(items):
        z = ref[f"r{i}"]; ck.count("fresh processes")
        if not z.ok: ck.crashed(mk("r", i), z, f"{cmd} n={x['n']} d={x['d']} p={x['p']}: no answer in a fresh process"); ck.observe()
    # sequences; unordered pools of cases, run in the order given
    for b in ("zeta", "core"):
        ids = [i for i in range(len(items)) if bin_of(items[i][0]) == b and ref[f"r{i}"].ok]
        if not ids: continue
        seqs = []
        for q in range(ck.scale(40, 400)):
            s = []; budget = ck.scale(6, 40)
            for _ in range(r.randint(4, 14)):
                i = r.choice(ids) if not s or r.random() < .75 else r.choice(s)
                if cost[i] <= budget: s.append(i); budget -= cost[i]
            if len(s) > 1: seqs.append(s)
        cases = []; meta = {}
        for q, s in enumerate(seqs):
            for k, i in enumerate(s):
                kw = {}
                if b == "zeta":
                    if r.random() < .6: kw["mod_p"] = r.choice([2, 3, 5, 7, 101, items[r.choice(s)][1]["p"]]); kw["mod_N"] = r.choice([2, 9, 10 ** 30 + 57, items[r.choice(s)][1]["p"] ** r.randint(1, 9)])
                    if r.random() < .5: kw["dirty"] = 1
                    if r.random() < .1: kw["repeat"] = 2
                c = mk(f"s{q}.{k}", i, **kw); cases.append(c); meta[c[0]] = (i, s[:k], kw)
        # one process per sequence
        res = {}; import concurrent.futures as cf
        groups = {}
        for c in cases: groups.setdefault(c[0].split(".")[0], []).append(c)
        with cf.ThreadPoolExecutor(8) as ex:
            for o in ex.map(lambda g: run.run(B[b], g, cpu=ck.scale(120, 2000), workers=1, chunk=len(g), ordered=True), groups.values()): res.update(o)
        for c in cases:
            i, before, kw = meta[c[0]]; cmd, x, _ = items[i]; z = res[c[0]]; z0 = ref[f"r{i}"]; g = groups[c[0].split(".")[0]]; upto = g[:g.index(c) + 1]
            lab = f"{cmd} n={x['n']} d={x['d']} p={x['p']} after {len(before)} other computations"; ck.observe((i, before[-1]) if before and before[-1] != i else None); ck.count(cmd + " in a sequence")
            if not z.ok: ck.violation(f"crash:{cmd}", f"{lab}: {z.status} (exit {z.rc}), in a fresh process it answers: {z.err[-400:]}", upto); continue
            for k in z0:
                if k in ("sched", ">"): continue
                if z.get(k) != z0[k]: ck.violation(f"{cmd}:{k}", f"{lab}: {k} is {str(z.get(k))[:300]}, in a fresh process {z0[k][:300]}", upto)
            if "repeat" in kw and z["zeta1"] != z0["zeta"]: ck.violation("repeat", f"{lab}: the second call gives {z['zeta1'][:300]}, the first {z0['zeta'][:300]}", upto)
            if "mod_p" in kw:
                ck.count("calls with moduli of the caller"); want = {"after_p": str(kw["mod_p"]), "after_N": str(kw["mod_N"]), "minus1_p": str(kw["mod_p"] - 1), "minus1_N": str(kw["mod_N"] - 1)}
                for k, v in want.items():
                    if z[k] != v: ck.violation("modulus:" + k, f"{lab}: caller installed p={kw['mod_p']}, N={kw['mod_N']}; afterwards {k} is {z[k]}", [c])
        if seqs: s = seqs[0]; ck.sample(f"one process: " + ", ".join(f"{items[i][0]} d={items[i][1]['d']} p={items[i][1]['p']}" for i in s) + ": all equal to their fresh results")
    # repetition without reseeding: the zeta function may not depend on the random choices already consumed
    cs = [mk(f"q{i}", i, repeat=ck.scale(3, 6)) for i in range(len(items)) if items[i][0] == "zeta" and ref[f"r{i}"].ok and cost[i] < ck.scale(1, 20) and r.random() < .6]
    res = run.run(B["zeta"], cs, cpu=ck.scale(120, 2000), cost=lambda c: cost[int(c[0][1:])])
    for c in cs:
        i = int(c[0][1:]); z = res[c[0]]; x = items[i][1]
        if not z.ok: ck.crashed(c, z, "repeated call"); continue
        for k in range(1, c[2]["repeat"]):
            ck.observe((i, "again", k)); ck.count("repeated calls")
            if z[f"zeta{k}"] != z["zeta"]: ck.violation("again", f"n={x['n']} d={x['d']} p={x['p']}: call {k + 1} gives {z[f'zeta{k}'][:300]}, the first {z['zeta'][:300]}", [c])
    return ck.finish(need=ck.scale(300, 3000))
