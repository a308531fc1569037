import re, concurrent.futures as cf
from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
FR = re.compile(r"^\s*#\d+ (.+?) (\S+):(\d+)", re.M)
def races(err):
    """the library functions on top of the two stacks of the first report"""
    if "WARNING: ThreadSanitizer" not in err: return None
    rep = err[err.index("WARNING: ThreadSanitizer"):]; kind = rep.split("\n")[0].split(":")[1].split("(")[0].strip()
    fns = []
    for part in re.split(r"\n  (?=(?:Previous|Write|Read|Atomic|Location|Thread|Mutex|As if))", rep)[:3]:
        for f, src, ln in FR.findall(part):
            if build.REPO in src or "/repo/" in src:
                fns.append(re.sub(r"\(.*", "", f).split("::")[-1].split(" ")[0]); break
    return kind, fns[:2], rep[:2500]
def drd(err):
    """the library function met first on the stack of DRD's first report, and the report"""
    m = re.search(r"==\d+== (Conflicting \w+|[^\n]*(?:mutex|lock|barrier|condition)[^\n]*)", err)
    if not m: return None
    rep = err[m.start():]; st = rep.split("==\n")[0] if "==\n" in rep else rep
    fn = next((re.sub(r"\(.*", "", f).split("::")[-1] for f, src in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((\S+\.(?:cc|h)):\d+\)", st) if src not in ("gomp_shim.cc", "ZZ.h", "vector.h", "matrix.h", "ZZ_p.h") and "crx" not in src), "?")
    return m.group(1).split(" by ")[0], fn, "\n".join(re.sub(r"^==\d+== ?", "", l) for l in rep.split("\n"))[:3000]
def under_drd(ck, r):
    """the same regions under valgrind's DRD, which sees the accesses inside the precompiled NTL, FLINT and GMP too.
    A first pass on one thread completes every lazily built table, whose publication DRD cannot follow."""
    B = build.build("vgt", ["zeta", "core"]); ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]; items = []
    for x in work.curves(r, ck.scale(12, 300), 3, ok(3, 5, 13)): items.append((x, "zeta", {"better": r.randrange(2), **({"abs": r.randint(2, 3), "inc": 1} if x["p"] >= 11 and r.random() < .4 else {})}))
    for x in work.curves(r, ck.scale(12, 300), 3, ok(3, 5, 11)) + work.curves(r, ck.scale(0, 6), 4, [3, 5], ["diag"]):
        N = [r.randint(1, 2), r.randint(1, 3)]; cls = "ND" if x["nd"] and r.random() < .6 else "J"
        items.append((x, "frob", {"N": P.vec(N), "prec": D.precision_for(2, x["p"], N) + r.choice([0, 3, 20]), "cls": cls, "methods": r.choice(["ND", "NDc NF"]) if cls == "ND" else r.choice(["J", "Jc"])}))
    for x in work.curves(r, ck.scale(9, 200), 3, ok(3, 5, 17)):
        items.append((x, "walks", {"prec": r.choice([2, 5, 20]), "cls": "ND" if x["nd"] and r.random() < .5 else "J", "trials": 2, "maxm": 2, "cols": 3, "seed": r.randrange(1 << 30)}))
    pre = ["valgrind", "--tool=drd", "-q", "--fair-sched=yes", "--error-exitcode=66", "--exit-on-first-error=yes", "--check-stack-var=yes"]
    jobs = []
    for g in range(3):
        env = {"SHIM_MODE": str(g % 3 + 1), "SHIM_SEED": str(r.randrange(1 << 30)), "OMP_NUM_THREADS": str(r.choice([2, 3, 4]))}
        for b, cmds in (("zeta", ("zeta",)), ("core", ("frob", "walks"))):
            cs = []
            for i, (x, cmd, k) in enumerate(items):
                if i % 3 != g or cmd not in cmds: continue
                kv = dict(k, p=x["p"], **P.fkv(x["f"]))
                cs += [run.case(f"d{i}.warm", cmd, **dict(kv, threads=1)), run.case(f"d{i}.multi", cmd, **dict(kv, threads=r.choice([2, 3, 4])))]
            if cs: jobs.append((env, b, cs))
    with cf.ThreadPoolExecutor(6) as ex: results = list(ex.map(lambda j: run.run(B[j[1]], j[2], cpu=ck.scale(150, 3000), env=j[0], mem=0, chunk=2, ordered=True, workers=3, pre=pre), jobs))
    for (env, b, cs), res in zip(jobs, results):
        for c in cs:
            z = res[c[0]]; i, kind = c[0][1:].split("."); x, cmd, k = items[int(i)]; lab = f"{cmd} n=2 d={x['d']} p={x['p']} ({x['fam']}) threads={c[2]['threads'] if cmd != 'walks' else env['OMP_NUM_THREADS']} {k} under DRD"
            if z.ok:
                if kind == "multi":
                    s = z["sched"].split(); multi = int(s[0]) > 0 and int(s[4]) > 1; ck.observe((c[0], env["SHIM_SEED"], "drd") if multi else None); ck.count("DRD: regions on several threads", int(s[1])); ck.count("DRD: iterations handed out", int(s[2])); ck.count("DRD: " + cmd)
                continue
            q = drd(z.err) if z.rc == 66 else None; ck.observe()
            if q: ck.violation(f"drd:{q[0]}:{q[1]}", f"{lab}: {q[0]} in {q[1]} not ordered with an access by another thread", [c], f"# environment {env}\n" + q[2])
            else: ck.crashed(c, z, lab + ": no result with several threads")
def main():
    ck = Check("P07", level="exploration", rule="parallel computations under ThreadSanitizer with an OpenMP runtime made of plain threads whose work sharing orders nothing; nontrivial when a region ran on at least two threads and finished without a report; distinct by (equation, p, options, thread count, schedule seed)",
               assumptions=["accesses inside the precompiled NTL, FLINT and GMP are seen by DRD only, in smaller runs", "OpenMP regions run on harness/gomp_shim.cc; its barriers, joins and critical sections are the only synchronisation"])
    B = build.build("tsan", ["zeta", "core"]); r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]; items = []
    for x in work.curves(r, ck.scale(110, 1500), 3, ok(3, 5, 61)):
        k = {"better": r.randrange(2)}
        if x["p"] >= 17 and r.random() < .5: k["abs"] = r.randint(2, min(8, x["p"] - 6)); k["inc"] = r.randrange(2)
        items.append((x, "zeta", k))
    for x in work.curves(r, ck.scale(10, 200), 4, ok(4, 3, 13)): items.append((x, "zeta", {"better": 0}))
    for x in work.curves(r, ck.scale(60, 1000), 3, ok(3, 5, 43)) + work.curves(r, ck.scale(8, 100), 4, ok(4, 3, 7)):
        N = [r.randint(1, 4), r.randint(2, 5)]; cls = "ND" if x["nd"] and r.random() < .5 else "J"
        items.append((x, "frob", {"N": P.vec(N), "prec": D.precision_for(2, x["p"], N) + r.choice([0, 3, 20]), "cls": cls, "methods": " ".join(r.sample(["ND", "NDc", "NF"], 2)) if cls == "ND" else r.choice(["J", "Jc", "Jc J"])}))
    for x in work.curves(r, ck.scale(24, 400), 3, ok(3, 5, 43)) + work.curves(r, ck.scale(4, 60), 4, ok(4, 3, 7)):
        items.append((x, "walks", {"prec": r.choice([2, 5, 20]), "cls": "ND" if x["nd"] and r.random() < .5 else "J", "trials": 3, "maxm": 3, "seed": r.randrange(1 << 30)}))
    if not ck.quick: items += [(x, "zeta", {}) for x in work.curves(r, 2, 5, [3, 7])]
    cases = []; cost = {}
    for i, (x, cmd, k) in enumerate(items):
        c = run.case(f"c{i}", cmd, p=x["p"], threads=r.choice([2, 3, 4, 6, 8]) if cmd != "walks" else None, **P.fkv(x["f"]), **k); cases.append(c); cost[c[0]] = work.cost(2, x["d"], x["p"]) * 10
    nm = 6
    for g in range(nm):
        env = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=5:report_thread_leaks=0", "SHIM_MODE": str(g % 4 if g % 4 != 3 or g < 4 else 1), "SHIM_SEED": str(r.randrange(1 << 30)), "OMP_NUM_THREADS": str(r.choice([2, 3, 4, 7]))}
        for b, cmd in (("zeta", "zeta"), ("core", "frob"), ("core", "walks")):
            cs = [c for q, c in enumerate(cases) if q % nm == g and c[1] == cmd]
            if not cs: continue
            res = run.run(B[b], cs, cpu=ck.scale(300, 3600), env=env, mem=0, cost=lambda c: cost[c[0]], workers=6)
            for c in cs:
                z = res[c[0]]; x, cmd_, k = items[int(c[0][1:])]; lab = f"{cmd} n=2 d={x['d']} p={x['p']} ({x['fam']}) threads={c[2].get('threads', env['OMP_NUM_THREADS'])} {k}"
                if z.ok:
                    s = z["sched"].split(); multi = int(s[0]) > 0 and int(s[4]) > 1; ck.observe((c[0], env["SHIM_SEED"]) if multi else None)
                    ck.count("regions on several threads", int(s[1])); ck.count("iterations handed out", int(s[2])); ck.count("critical sections", int(s[3])); ck.count(cmd); ck.count("via " + ("J" if k.get("cls") == "J" or (cmd == "zeta" and not x["nd"] and not k.get("better", 1)) else "ND"))
                    if r.random() < .03: ck.sample(f"{lab}: no report; {z['sched']}")
                else:
                    ck.observe(); q = races(z.err)
                    if q: ck.violation(f"{q[0]}:{'/'.join(sorted(q[1]))}", f"{lab}: {q[0]} between {' and '.join(q[1])}", [c], f"# environment {env}\n" + q[2])
                    else: ck.crashed(c, z, lab + ": no result with several threads")
    under_drd(ck, r)
    return ck.finish(need=ck.scale(90, 900))
