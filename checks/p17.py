from vlib import build, run, poly as P
from vlib.verdict import Check
def integers(r, k):
    out = []
    for _ in range(k):
        t = r.random(); b = r.choice([0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 256, 1000, 4096])
        x = r.choice([1 << b, (1 << b) - 1, (1 << b) + 1, r.getrandbits(b + 1), 255 << b, r.getrandbits(20) << b]) if t < .9 else r.randint(-3, 3); out.append(x * r.choice([1, -1]))
    return out
def main():
    ck = Check("P17", rule="integers of 0 to 4096 bits around every byte, word and limb boundary, both signs; matrices of every shape, also with no rows; residues modulo word-sized and multi-word moduli; every representation is compared with the decimal expansion of the original, and the round trip with the original; nontrivial when nonzero, distinct by value or matrix")
    B = build.build("plain", ["prod"])["prod"]; r = ck.rng; cases = []; meta = {}
    for i in range(ck.scale(400, 6000)):
        v = integers(r, r.randint(1, 40)); c = run.case(f"i{i}", "conv_int", v=P.vec(v)); cases.append(c); meta[c[0]] = v
    for i in range(ck.scale(700, 10000)):
        a, b = r.choice([(r.randint(1, 5), r.randint(1, 5)), (1, r.randint(1, 12)), (r.randint(1, 12), 1), (2, 9), (9, 2)]); x = integers(r, a * b); M = [x[k * b:k * b + b] for k in range(a)]
        q = r.choice([3, 5, 7, 97, 65537, 2147483647, 4294967291]); p = q ** r.choice([1, 1, 2]) if q < 2 ** 29 else q
        if p >= 2 ** 60: p = q
        mod = r.choice([q, q ** 2, q ** 9, q ** 40, 2 ** 64 + 13, 2 ** 63 - 25]); kw = {}
        if mod % q == 0: kw["q2"] = q
        c = run.case(f"m{i}", "conv_mat", M=P.mat(M), mod=mod, p=p, q=q, **kw); cases.append(c); meta[c[0]] = (M, mod, p, q)
    res = run.run(B, cases, cpu=30)
    flat = lambda M: [x for row in M for x in row]
    for c in cases:
        z = res[c[0]]
        if not z.ok: ck.crashed(c, z, f"{c[1]}: conversion did not return"); ck.observe(); continue
        def want(k, got, exp, what): 
            if got != exp: ck.violation(f"{c[1]}:{k}", f"{what}: got {str(got)[:400]}, expected {str(exp)[:400]}", [c])
        if c[1] == "conv_int":
            v = meta[c[0]]
            for x in v: ck.observe(x if x else None)
            want("mpz", [int(t) for t in z["mpz"].split()], v, "NTL to mpz"); want("fmpz", [int(t) for t in z["fmpz"].split()], v, "NTL to fmpz"); want("viaM", P.pv(z["viaM"]), v, "NTL to mpz and back"); want("viaF", P.pv(z["viaF"]), v, "NTL to fmpz and back"); want("vec", P.pv(z["vec"]), v, "vector to fmpz and back"); ck.count("integers", len(v))
        else:
            M, mod, p, q = meta[c[0]]; ck.observe(c[0] if any(flat(M)) else None); ck.count("matrices"); s = f"{len(M)}x{len(M[0])}"
            want("mpz", P.pv(z["mpz"]), M, s + " matrix to mpz and back"); want("mpzflat", [int(t) for t in z["mpzflat"].split()], flat(M), s + " matrix to mpz"); want("fmpz", P.pv(z["fmpz"]), M, s + " matrix to fmpz and back"); want("fmpzflat", [int(t) for t in z["fmpzflat"].split()], flat(M), s + " matrix to fmpz")
            want("ZZp", P.pv(z["ZZp"]), [[x % mod for x in row] for row in M], s + f" matrix mod {mod} to fmpz and back"); want("ZZpsame", z["ZZpsame"], "1", "round trip mod N"); want("ZZpvec", z["ZZpvec"], "1", "vector round trip mod N")
            want("nmod", P.pv(z["nmod"]), [[x % p for x in row] for row in M], s + f" matrix mod {p} to nmod and back"); want("nmodflat", [int(t) for t in z["nmodflat"].split()], [x % p for x in flat(M)], s + f" matrix to nmod {p}")
            want("nmodq", [int(t) for t in z["nmodq"].split()], [x % p % q for x in flat(M)], s + f" matrix mod {p} to nmod {q}")
            if "ZZp2nmod" in z: want("ZZp2nmod", [int(t) for t in z["ZZp2nmod"].split()], [x % mod % q for x in flat(M)], s + f" matrix mod {mod} to nmod {q}")
        if len(ck.samples) < 6 and r.random() < .01: ck.sample(str(meta[c[0]])[:300])
    return ck.finish(need=1000)
