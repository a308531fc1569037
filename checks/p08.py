import os, shutil, tempfile, re
from vlib import build, run, poly as P, weil as W, work, prec as D
from vlib.verdict import Check
def norm(r, pre):
    """what an object shows, f without explicit zeros"""
    out = {}
    for k in r:
        if not k.startswith(pre): continue
        out[k[len(pre):]] = r[k]
    for k in ("f", "fbar"):
        if k + ".mon" in out:
            m = P.pv(out.pop(k + ".mon")); c = P.pv(out.pop(k + ".coef")); out[k] = sorted((tuple(u), v) for u, v in zip(m, c) if v)
    return out
def main():
    ck = Check("P08", level="fault_enumeration", rule="objects of both classes saved cold and warm, loaded in the same and in a fresh process, saved again, and saves into destinations that fail; nontrivial when the Frobenius matrix is nonzero (round trips) or the destination really failed; distinct by (equation, p, precision, class, stage) or by fault",
               assumptions=["failing destinations: missing directory, directory, swap file blocked, file size limit at every scale; media that lie about success are out of scope"])
    B = build.build("plain", ["core"])["core"]; r = ck.rng; ok = lambda d, lo, hi: [p for p in P.primes(lo, hi) if d % p]
    tmp = tempfile.mkdtemp(prefix="crx-save-")
    try:
        xs = work.curves(r, ck.scale(110, 2000), 3, ok(3, 5, 47)) + work.curves(r, ck.scale(10, 200), 4, ok(4, 3, 11)) + ([] if ck.quick else work.curves(r, 6, 5, [3, 7]))
        cases = []; meta = {}; cost = {}
        for i, x in enumerate(xs):
            p = x["p"]; N = [r.randint(1, 3), r.randint(1, 4)]; prec = D.precision_for(2, p, N) + r.choice([0, 0, 2, 20]); cls = "ND" if x["nd"] and r.random() < .6 else "J"
            f = x["f"] if r.random() < .4 else P.any_lift(r, x["f"], p, r.random() < .5); T = P.tuples(x["d"] * r.randint(1, 2) - 3, 3); us = r.sample(T, min(len(T), 5))
            us = [tuple(e + 1 for e in u) for u in us]
            name = "".join(r.choice("abcxyz") for _ in range(r.choice([1, 3, 7, 8, 20, 60, 150]))) + f"{i}"
            c = run.case(f"s{i}", "save", p=p, prec=prec, N=P.vec(N), cls=cls, ctor=r.choice(["mapZ", "mapZ", "vecZ", "mapz", "vecz"]), warm=r.randrange(2), threads=r.choice([1, 1, 3]), file=os.path.join(tmp, name), suffix=".again", us="[" + " ".join(P.vec(u) for u in us) + "]", verbose=r.random() < .1 and 1 or 0, **P.fkv(f))
            cases.append(c); meta[c[0]] = x; cost[c[0]] = work.cost(2, x["d"], p) * 3
        res = run.run(B, cases, cpu=ck.scale(120, 2000), cost=lambda c: cost[c[0]])
        loads = []; exp = {}; by = {c[0]: c for c in cases}
        for c in cases:
            z = res[c[0]]; x = meta[c[0]]; kv = c[2]; lab = f"d={x['d']} p={x['p']} precision={kv['prec']} class {kv['cls']} {'warm' if kv['warm'] else 'cold'} ctor {kv['ctor']} name length {len(os.path.basename(kv['file']))}"
            if not z.ok: ck.crashed(c, z, lab + ": save and reload did not return"); ck.observe(); continue
            if z["saved"] != "1" or z["saved2"] != "1": ck.violation("reported-failure", f"{lab}: a save into a good destination reported failure", [c])
            a = norm(z, "a."); b = norm(z, "b."); hs = b.pop("hs"); a.pop("hs", None)
            F = P.pv(z["a.F"]); ck.observe((c[0],) if any(any(row) for row in F) else None); ck.count("round trips"); ck.count("class " + kv["cls"] + (" warm" if kv["warm"] else " cold"))
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k): ck.violation("reload:" + re.sub(r"\d+", "", k), f"{lab}: after reloading, {k} is {str(b.get(k))[:300]}, before {str(a.get(k))[:300]}", [c])
            if hs.split()[:2] != [str(x["p"]), str(kv["prec"])] or hs.split()[2:] != ["2", str(x["d"])]: ck.violation("reload:scalars", f"{lab}: reloaded object has p precision n d = {hs}", [c])
            for k, suf in (("first", ""), ("again", ".again")):
                l = run.case(f"{c[0]}.{k}", "load", p=x["p"], prec=kv["prec"], N=kv["N"], cls=kv["cls"], file=kv["file"] + suf); loads.append(l); exp[l[0]] = (c, z["a.F"], lab, k); cost[l[0]] = cost[c[0]] / 3
        R2 = run.run(B, loads, cpu=ck.scale(120, 2000), chunk=8)
        for l in loads:
            c, F, lab, k = exp[l[0]]; z = R2[l[0]]; ck.observe((l[0],)); ck.count("loads in a fresh process")
            if not z.ok: ck.crashed(l, z, f"{lab}: file ({k}) does not load in a fresh process")
            elif z["F"] != F: ck.violation("fresh:" + k, f"{lab}: the {k} file gives Frobenius {z['F'][:300]}, the original {F[:300]}", [c, l])
        # failures
        bad = []; what = {}; src = {}
        def fault(nm, c0, **kw):
            kv = {k: v for k, v in c0[2].items() if k not in ("file", "suffix", "us", "N", "warm", "threads", "verbose")}; c = run.case(f"f{len(bad)}", "savefail", **dict(kv, **kw)); bad.append(c); what[c[0]] = nm; src[c[0]] = c0
        good = [c for c in cases if res[c[0]].ok]
        for q in range(ck.scale(40, 400)):
            c0 = r.choice(good); full = os.path.getsize(c0[2]["file"]); base = os.path.join(tmp, f"bad{q}")
            os.mkdir(base); fault("missing directory", c0, file=os.path.join(base, "nowhere", "x")); fault("destination is a directory", c0, file=base)
            os.mkdir(base + "sw.swp"); fault("swap file cannot be created", c0, file=base + "sw")
            for lim in sorted({0, 1, full // 2, full - 1, r.randrange(full), full - min(full, r.randint(1, 40))}): fault(f"size limit", c0, file=base + f"l{lim}", limit=lim)
            fault("good", c0, file=base + "ok"); fault("good", c0, file=base + "ok2", limit=full)
        R3 = run.run(B, bad, cpu=ck.scale(100, 500), chunk=20)
        for c in bad:
            z = R3[c[0]]; nm = what[c[0]]; full = 0
            if not z.ok:
                # ending the process is a reported failure, but not for a good destination
                ck.observe((c[0],) if nm != "good" else None); ck.count("process ended: " + nm)
                if nm == "good" or z.status == "hang" or z.rc in (-11, -8, -7): ck.crashed(c, z, f"save ({nm}) did not return")
                continue
            ck.observe((c[0],)); ck.count("fault: " + nm)
            if nm == "good":
                if z["saved"] != "1": ck.violation("good-refused", f"save into a good destination reported failure (limit {c[2].get('limit')})", [c])
            elif z["saved"] == "1":
                # right if the whole file is there all the same: it loads and gives the same matrix
                c0 = src[c[0]]; l = run.case("w" + c[0], "load", p=c0[2]["p"], prec=c0[2]["prec"], N=c0[2]["N"], cls=c0[2]["cls"], file=c[2]["file"]); w = run.run(B, [l], cpu=60)[l[0]]
                if w.ok and w["F"] == res[c0[0]]["a.F"]: ck.count("written in spite of: " + nm)
                else: ck.violation("unreported:" + nm, f"save reported success although the file could not be written ({nm}, limit {c[2].get('limit')})", [c])
        # a file cut at any point never loads as something else
        cuts = []; cexp = {}
        for q in range(ck.scale(12, 60)):
            c0 = r.choice(good); data = open(c0[2]["file"], "rb").read(); offs = sorted(set([0, 1, len(data) - 1, len(data) - 2] + [r.randrange(len(data)) for _ in range(ck.scale(6, 30))] + [i for i in [m.start() for m in re.finditer(b"\n", data)] if r.random() < .15]))
            for o in offs:
                fn = os.path.join(tmp, f"cut{q}.{o}"); open(fn, "wb").write(data[:o])
                l = run.case(f"c{q}.{o}", "load", p=c0[2]["p"], prec=c0[2]["prec"], N=c0[2]["N"], cls=c0[2]["cls"], file=fn); cuts.append(l); cexp[l[0]] = (res[c0[0]]["a.F"], o, len(data), data)
        R4 = run.run(B, cuts, cpu=ck.scale(60, 200), chunk=12)
        for l in cuts:
            z = R4[l[0]]; F, o, n, data = cexp[l[0]]; ck.observe((l[0],)); ck.count("cut files refused" if not z.ok else "cut files loaded unchanged")
            if z.ok and z["F"] != F: ck.violation("cut", f"a file cut after {o} of {n} bytes loads and gives {z['F'][:200]}, the whole file {F[:200]}", [l], data[:4000].decode())
            if not z.ok and z.status == "hang": ck.violation("cut-hang", f"loading a file cut after {o} of {n} bytes does not end", [l])
        if cases: ck.sample(f"{run.line(cases[0])[:300]} -> saved {res[cases[0][0]].get('saved')}, Frobenius {res[cases[0][0]].get('a.F')}")
        return ck.finish(need=ck.scale(300, 3000))
    finally: shutil.rmtree(tmp, ignore_errors=True)
