"""Workloads shared by the checks."""
import subprocess, concurrent.futures as cf, random
from . import build, run, poly as P, weil as W
def oracle(lines, workers=8, timeout=3000):
    """runs oracle lines (id first) in parallel; {id: [values]}"""
    exe = build.oracle(); lines = list(lines); res = {}
    if not lines: return res
    ch = [lines[i::workers * 3] for i in range(workers * 3)]
    def go(l):
        r = subprocess.run([exe], input="\n".join(l) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        if r.returncode: raise run.HarnessError("oracle failed: " + r.stderr[-500:])
        return r.stdout
    with cf.ThreadPoolExecutor(workers) as ex:
        for o in ex.map(go, [c for c in ch if c]):
            for l in o.splitlines():
                t = l.split(); res[t[0]] = [int(x) for x in t[1:]]
    if len(res) != len(lines): raise run.HarnessError("oracle lost lines")
    return res
def smooth_filter(items, want_nd=True):
    """items: list of dicts with f, p. Keeps the smooth ones; sets nd."""
    lines = []
    items = [x for x in items if P.clean(x["f"], x["p"])]
    for i, x in enumerate(items): 
        lines.append(P.oline(f"s{i}", "smooth", x["p"], 1, x["f"]))
        if want_nd: lines.append(P.oline(f"t{i}", "nd", x["p"], 1, x["f"]))
    o = oracle(lines); out = []
    for i, x in enumerate(items):
        if o[f"s{i}"][0]:
            x["smooth"] = True
            if want_nd: x["nd"] = bool(o[f"t{i}"][0])
            out.append(x)
    return out
def curves(rng, count, d, ps, fams=None, n=2):
    """count smooth hypersurfaces of degree d in P^n over the primes ps, families cycled"""
    fams = fams or ["dense", "sparse", "diag", "inv", "degenerate", "cyclic", "full", "sparse"]; out = []; rounds = 0
    while len(out) < count and rounds < 12:
        rounds += 1; items = []
        for i in range(int((count - len(out)) * 1.6) + 4):
            p = ps[rng.randrange(len(ps))]; fam = fams[(i + rounds) % len(fams)]
            f = P.FAMS[fam](rng, n, d, p)
            if rng.random() < .5: f = {u: c for u, c in f.items() if c % p}   # explicit zero terms stay in the other half
            items.append({"f": f, "p": p, "n": n, "d": d, "fam": fam})
        out += smooth_filter(items)
    return out[:count]
EDGES = [251, 257, 509, 521, 1021, 1031, 4093, 16381, 32749, 32771, 46337, 46349, 65521, 65537]
def bigprime(rng, lo, hi):
    """a prime in [lo, hi], about uniform in its logarithm; often next to a power of two or to the root of one"""
    e = [p for p in EDGES if lo <= p <= hi]
    if e and rng.random() < .3: return rng.choice(e)
    p = int(lo * (hi / lo) ** rng.random()) | 1
    while not isprime(p): p += 2
    return p
def isprime(p): return p > 1 and all(p % q for q in range(2, int(p ** .5) + 1))
def large(rng, c3, c4=0, c5=0, top=70000, fams=None, d3=None):
    """curves over large prime fields: c3 cubics, c4 quartics, c5 quintics; a part of them degenerate (over smaller fields, the algorithm for those is slower)"""
    out = []
    for d, c, hi, hj in ((3, c3, top, min(top, d3 or 6000)), (4, c4, min(top, 11000), min(top, 400)), (5, c5, min(top, 200), 0)):
        k = c // 4 if hj else 0
        for nd, m, h in ((True, c - k, hi), (False, k, hj)):
            got = 0; tries = 0
            while got < m and tries < 60:
                tries += 1
                for x in curves(rng, m - got, d, [bigprime(rng, 150, h) for _ in range(m - got)], fams or (["dense", "sparse", "diag", "inv", "cyclic", "full"] if nd else ["degenerate", "sparse", "inv"])):
                    if x["nd"] == nd and got < m: out.append(x); got += 1
    return out
def fermat(rng, count, d, ps, n=2):
    """a_0 x_0^d + ... + a_n x_n^d, nothing else"""
    return [{"f": {P.pw(d, n + 1, k): rng.randrange(1, p) for k in range(n + 1)}, "p": p, "n": n, "d": d, "fam": "Fermat", "nd": True, "smooth": True} for p in (ps[rng.randrange(len(ps))] for _ in range(count))]
# rough cost in CPU seconds of one zeta computation
def cost(n, d, p, nd=True):
    if n == 2 and p > 150 and d <= 5: return {3: .05 + p * 2e-6, 4: .2 + p * 1.2e-4, 5: 3 + p * 5e-3}[d] if nd else {3: .05 + p * 3e-5, 4: .2 + p * 4e-3, 5: 5 + p * .1}[d]
    base = {(2, 3): .008, (2, 4): .2, (2, 5): 4, (2, 6): 40, (2, 7): 250, (3, 4): 60}.get((n, d), 500)
    return base * (1 + p / 60) * (1 if nd else 1.5) * (4 if p == 3 and d > 3 else 1)
def zcase(i, x, **kw):
    c = run.case(i, "zeta", p=x["p"], **P.fkv(x["f"]), **kw); return c
def linear(rng, x, dense=True):
    """the equation after a random invertible substitution"""
    M = P.rand_gl(rng, x["n"] + 1, x["p"]); return P.subst(x["f"], M, x["p"])
