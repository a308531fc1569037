"""Polynomials {exponents: coefficient}, NTL text, generators of hypersurfaces."""
import re, itertools, random
def primes(lo, hi): return [p for p in range(max(2, lo), hi + 1) if all(p % q for q in range(2, int(p ** .5) + 1))]
def tuples(d, nv):
    if nv == 1: return [(d,)]
    return [(i,) + t for i in range(d + 1) for t in tuples(d - i, nv - 1)]
def pw(d, nv, i): return tuple(d if j == i else 0 for j in range(nv))
# NTL text
def vec(v): return "[" + " ".join(str(x) for x in v) + "]"
def mat(M): return "[" + "".join(vec(r) for r in M) + "]"
def mons(f): return "[" + " ".join(vec(u) for u in f) + "]"
def fkv(f): return {"mon": mons(list(f)), "coef": vec(f.values())}
_tok = re.compile(r"\[|\]|-?\d+")
def parse(s):
    """NTL vectors of any depth -> nested lists; a list of top-level objects if there are several"""
    st = [[]]
    for t in _tok.findall(s):
        if t == "[": st.append([])
        elif t == "]": x = st.pop(); st[-1].append(x)
        else: st[-1].append(int(t))
    return st[0]
def pv(s): return parse(s)[0]
def pm(s, cols=None): return parse(s)[0]
def pfun(r, key): return {tuple(m): c for m, c in zip(pv(r[key + ".mon"]), pv(r[key + ".coef"]))}
def oline(i, cmd, p, e, f):
    nv = len(next(iter(f)))
    return f"{i} {cmd} {p} {e} {nv} {len(f)} " + " ".join(f"{c % p} " + " ".join(map(str, u)) for u, c in f.items())
# substitution x_i -> sum_j M[i][j] x_j
def mulp(a, b, m=None):
    r = {}
    for u, x in a.items():
        for v, y in b.items():
            w = tuple(i + j for i, j in zip(u, v)); r[w] = r.get(w, 0) + x * y
    if m: r = {u: x % m for u, x in r.items() if x % m}
    return r
def addp(a, b, m=None):
    r = dict(a)
    for u, x in b.items(): r[u] = r.get(u, 0) + x
    if m: r = {u: x % m for u, x in r.items() if x % m}
    return r
def subst(f, M, m=None):
    nv = len(M); one = {(0,) * nv: 1}; lin = [{tuple(1 if k == j else 0 for k in range(nv)): M[i][j] for j in range(nv) if M[i][j]} for i in range(nv)]
    pows = []
    for l in lin:
        P = [one]
        for _ in range(max(max(u) for u in f)): P.append(mulp(P[-1], l, m))
        pows.append(P)
    r = {}
    for u, c in f.items():
        t = {(0,) * nv: c}
        for i, e in enumerate(u):
            if e: t = mulp(t, pows[i][e], m)
        r = addp(r, t)
    return {u: (x % m if m else x) for u, x in r.items() if (x % m if m else x)}
def detmod(M, p):
    M = [[x % p for x in r] for r in M]; n = len(M); d = 1
    for i in range(n):
        k = next((k for k in range(i, n) if M[k][i]), None)
        if k is None: return 0
        if k != i: M[i], M[k] = M[k], M[i]; d = -d
        d = d * M[i][i] % p; inv = pow(M[i][i], -1, p)
        for k in range(i + 1, n):
            c = M[k][i] * inv % p
            if c: M[k] = [(a - c * b) % p for a, b in zip(M[k], M[i])]
    return d % p
def rand_gl(rng, n, p):
    while True:
        M = [[rng.randrange(p) for _ in range(n)] for _ in range(n)]
        if detmod(M, p): return M
# families of equations
def fam_dense(rng, n, d, p): return {u: rng.randrange(p) for u in tuples(d, n + 1)}
def fam_full(rng, n, d, p): return {u: rng.randrange(1, p) for u in tuples(d, n + 1)}
def fam_sparse(rng, n, d, p, k=None):
    T = tuples(d, n + 1); k = k or rng.randint(n + 1, max(n + 2, len(T) // 2))
    f = {u: rng.randrange(1, p) for u in rng.sample(T, min(k, len(T)))}
    # make smoothness likely: near-pure power of each variable
    for i in range(n + 1):
        if rng.random() < .85 and not any(u[i] >= d - 1 for u in f):
            j = rng.randrange(n + 1); u = list(pw(d - 1, n + 1, i)); u[j] += 1; f[tuple(u)] = rng.randrange(1, p)
    return f
def fam_diag(rng, n, d, p):
    f = {pw(d, n + 1, i): rng.randrange(1, p) for i in range(n + 1)}
    for u in rng.sample(tuples(d, n + 1), rng.choice([0, 0, 1, 2, 3])): f[u] = rng.randrange(1, p)
    return f
def fam_inv(rng, n, d, p):
    """invertible (chain / loop / Fermat) polynomials plus a little noise"""
    to = [rng.randrange(n + 1) for _ in range(n + 1)] if rng.random() < .5 else [(i + 1) % (n + 1) for i in range(n + 1)]
    f = {}
    for i in range(n + 1):
        u = list(pw(d - 1, n + 1, i)); u[to[i]] += 1; f[tuple(u)] = rng.randrange(1, p)
    for u in rng.sample(tuples(d, n + 1), rng.choice([0, 0, 1, 2])): f[u] = rng.randrange(1, p)
    return f
def fam_degenerate(rng, n, d, p):
    """a dense equation through coordinate points or tangent to coordinate lines: smooth but degenerate"""
    f = fam_dense(rng, n, d, p)
    for i in range(n + 1):
        if rng.random() < .6: f[pw(d, n + 1, i)] = 0
    return f
def fam_cyclic(rng, n, d, p):
    """x_n^d = g(x_0..x_{n-1})"""
    f = {u + (0,): rng.randrange(p) for u in tuples(d, n)}; f[pw(d, n + 1, n)] = rng.choice([1, p - 1, rng.randrange(1, p)])
    return f
FAMS = {"dense": fam_dense, "full": fam_full, "sparse": fam_sparse, "diag": fam_diag, "inv": fam_inv, "degenerate": fam_degenerate, "cyclic": fam_cyclic}
def clean(f, p): return {u: c for u, c in f.items() if c % p}
def any_lift(rng, f, p, big=False):
    """the same equation with other integer coefficients (big: many words; otherwise they fit a signed 64-bit integer)"""
    r = {}; word = rng.random() < .4
    for u, c in f.items():
        if big: k = rng.randrange(-10 ** 40, 10 ** 40)
        elif word: e = rng.choice([15, 16, 31, 31, 32, 33, 53, 62]); k = rng.choice([-1, 1]) * (2 ** e + rng.choice([0, 0, rng.randrange(2 ** e // 2)])) // p + rng.randrange(-1, 2); k = k if rng.random() < .8 else 0
        else: k = rng.choice([0, 0, 1, -1, -2, rng.randrange(-50, 50)])
        r[u] = c + k * p
    return r
