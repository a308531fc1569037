"""Exact arithmetic on (lists of coefficients, low to high) integer polynomials, Weil polynomials, Newton and Hodge polygons."""
from fractions import Fraction
from math import gcd, comb, isqrt
def trim(a):
    a = list(a)
    while a and a[-1] == 0: a.pop()
    return a
def mul(a, b):
    if not a or not b: return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b): r[i + j] += x * y
    return r
def power_sums(cp, k):
    """power sums of the roots of the monic polynomial cp"""
    b = len(cp) - 1; e = [(-1) ** i * cp[b - i] for i in range(b + 1)]; s = [b]
    for m in range(1, k + 1):
        t = 0
        for i in range(1, m): 
            if i <= b: t += (-1) ** (i - 1) * e[i] * s[m - i]
        if m <= b: t += (-1) ** (m - 1) * m * e[m]
        s.append(t)
    return s
def from_power_sums(s, b):
    e = [1]
    for m in range(1, b + 1):
        t = sum((-1) ** (i - 1) * e[m - i] * s[i] for i in range(1, m + 1))
        if t % m: return None
        e.append(t // m)
    return [(-1) ** i * e[i] for i in range(b, -1, -1)]
def hodge(n, d):
    """primitive Hodge numbers h^{n-1-(m-1), m-1}, m = pole order 1..n"""
    c = [1]
    for _ in range(n + 1):
        r = [0] * (len(c) + d - 2)
        for i, x in enumerate(c):
            for j in range(d - 1): r[i + j] += x
        c = r
    return [c[m * d - n - 1] if 0 <= m * d - n - 1 < len(c) else 0 for m in range(1, n + 1)]
def points(cp, n, q, k):
    return sum(q ** (k * i) for i in range(n)) + (-1) ** (n - 1) * power_sums(cp, k)[k]
def val(x, p):
    if x == 0: return None
    k = 0
    while x % p == 0: x //= p; k += 1
    return k
def gcdpoly(a, b):
    a = [Fraction(x) for x in trim(a)]; b = [Fraction(x) for x in trim(b)]
    while b:
        while len(a) >= len(b):
            c = a[-1] / b[-1]; o = len(a) - len(b)
            for i, x in enumerate(b): a[o + i] -= c * x
            a.pop(); a = trim(a)
            if not a: break
        a, b = b, a
    return [x / a[-1] for x in a] if a else []
def divexact(a, b):
    a = [Fraction(x) for x in a]; q = []
    while len(a) >= len(b):
        c = a[-1] / b[-1]; q.append(c); o = len(a) - len(b)
        for i, x in enumerate(b): a[o + i] -= c * x
        a.pop()
    return q[::-1]
def ints(a):
    l = 1
    for x in a: l = l * Fraction(x).denominator // gcd(l, Fraction(x).denominator)
    v = [int(Fraction(x) * l) for x in a]; g = 0
    for x in v: g = gcd(g, x)
    return [x // g for x in v] if g else v
def all_roots_real_bounded(h, B2):
    """are all complex roots of h real with square <= B2?  exact: squarefree part, Sturm count on R, and the polynomial of squares"""
    h = trim(h)
    if len(h) <= 1: return True
    der = [i * x for i, x in enumerate(h)][1:]; g = gcdpoly(h, der); sq = ints(divexact(h, g)) if len(g) > 1 else ints(h)
    def count(poly, lo, hi):
        """distinct real roots in (lo, hi]; None = infinity"""
        seq = [ints(poly), ints([i * x for i, x in enumerate(poly)][1:])]
        while len(seq[-1]) > 1:
            a = [Fraction(x) for x in seq[-2]]; b = seq[-1]
            while len(a) >= len(b):
                c = a[-1] / b[-1]; o = len(a) - len(b)
                for i, x in enumerate(b): a[o + i] -= c * x
                a.pop(); a = trim(a)
                if not a: break
            if not a: break
            r = ints(a); seq.append([-x for x in r])
        def sgn(poly, x):
            if x == "-": v = poly[-1] * (-1) ** (len(poly) - 1)
            elif x == "+": v = poly[-1]
            else:
                v = 0
                for c in reversed(poly): v = v * x + c
            return (v > 0) - (v < 0)
        def var(x):
            s = [t for t in (sgn(q, x) for q in seq) if t]; return sum(1 for i in range(len(s) - 1) if s[i] != s[i + 1])
        return var(lo) - var(hi)
    if count(sq, "-", "+") != len(sq) - 1: return False
    # squares of the roots: r(y) = prod (y - t^2), from sq(x) sq(-x)
    neg = [x * (-1) ** i for i, x in enumerate(sq)]; pr = mul(sq, neg); y = [pr[i] for i in range(0, len(pr), 2)]
    g = gcdpoly(y, [i * x for i, x in enumerate(y)][1:]); y = ints(divexact(y, g)) if len(g) > 1 else ints(y)
    return count(y, Fraction(B2), "+") == 0
def trace_poly(cp, q):
    """cp of even degree 2g with cp = T^g h(T + q/T); q = p^w"""
    g = (len(cp) - 1) // 2; c = list(cp); h = [0] * (g + 1)
    # (T^2 + q)^k T^(g-k)
    for k in range(g, -1, -1):
        h[k] = c[g + k]
        if h[k]:
            for i in range(k + 1): c[g - k + 2 * i] -= h[k] * comb(k, i) * q ** (k - i)
    return h, not any(c)
def weil_shape(cp, n, d, p):
    """list of defects of cp as the zeta polynomial of a smooth degree d hypersurface in P^n over F_p"""
    w = n - 1; H = hodge(n, d); b = sum(H); bad = []
    if len(cp) != b + 1: return [f"degree {len(cp) - 1}, expected {b}"]
    if cp[-1] != 1: bad.append("not monic")
    if any(abs(cp[b - k]) ** 2 > comb(b, k) ** 2 * p ** (w * k) for k in range(b + 1)): bad.append("coefficient beyond the Weil bound")
    # functional equation: cp[k] = s * cp[b-k] * p^(w(b-2k)/2)
    def symm(s): return all((cp[k] ** 2 == cp[b - k] ** 2 * p ** (w * (b - 2 * k))) and ((cp[k] > 0) - (cp[k] < 0)) == s * ((cp[b - k] > 0) - (cp[b - k] < 0)) for k in range(b // 2 + 1))
    signs = [s for s in (1, -1) if symm(s)]
    if not signs or (w % 2 == 1 and 1 not in signs): bad.append("functional equation fails"); return bad
    # odd degree or sign -1: strip the real roots +-p^(w/2)
    a = list(cp); q = p ** w
    if w % 2 == 0:
        r = p ** (w // 2)
        for root in (r, -r):
            while len(a) > 1:
                v = 0
                for c in reversed(a): v = v * root + c
                if v: break
                nb = []; acc = 0
                for c in reversed(a): acc = acc * root + c; nb.append(acc)
                a = nb[:-1][::-1]
    if (len(a) - 1) % 2: bad.append("odd number of nonreal roots"); return bad
    if len(a) > 1:
        h, ok = trace_poly(a, q)
        if not ok: bad.append("not of the form T^g h(T+q/T)")
        elif not all_roots_real_bounded(h, 4 * q): bad.append("a root off the Weil circle")
    # Newton over Hodge (in terms of coefficients: slopes of eigenvalues; Hodge slopes m-1 reversed are symmetric)
    pts = []; x = y = 0; hod = [0]
    for i, k in enumerate(H[::-1]):  # slope 0 has h^{0,w} = h for m = n
        for _ in range(k): y += i; hod.append(y)
    for k in range(b + 1):
        v = val(cp[b - k], p)
        if v is not None and v < hod[k]: bad.append(f"Newton polygon below Hodge at {k}"); break
    return bad
def cyclotomic(m, cache={}):
    if m in cache: return cache[m]
    a = [-1] + [0] * (m - 1) + [1]
    for k in range(1, m):
        if m % k == 0: a = [int(x) for x in divexact(a, cyclotomic(k))]
    cache[m] = a; return a
def phi(m): return sum(1 for k in range(1, m + 1) if gcd(k, m) == 1)
def charpoly(M, mod=None):
    """Faddeev-LeVerrier over Z (exact) """
    n = len(M); c = [1]; A = [[0] * n for _ in range(n)]; 
    for k in range(1, n + 1):
        # A = M*A + c*I
        A = [[sum(M[i][t] * A[t][j] for t in range(n) if M[i][t]) + (c[-1] if i == j else 0) for j in range(n)] for i in range(n)]
        tr = sum(sum(M[i][t] * A[t][i] for t in range(n) if M[i][t]) for i in range(n))
        assert tr % k == 0
        c.append(-(tr // k))
    return c[::-1]
def charpoly_mod(M, p):
    """Hessenberg over F_p, low to high"""
    M = [[x % p for x in r] for r in M]; n = len(M)
    for j in range(n - 1):
        k = next((k for k in range(j + 1, n) if M[k][j]), None)
        if k is None: continue
        if k != j + 1:
            M[k], M[j + 1] = M[j + 1], M[k]
            for r in M: r[k], r[j + 1] = r[j + 1], r[k]
        inv = pow(M[j + 1][j], -1, p)
        for i in range(j + 2, n):
            c = M[i][j] * inv % p
            if c:
                M[i] = [(a - c * x) % p for a, x in zip(M[i], M[j + 1])]
                for r in M: r[j + 1] = (r[j + 1] + c * r[i]) % p
    P = [[1]]
    for k in range(1, n + 1):
        q = [0] + P[k - 1]
        for i, x in enumerate(P[k - 1]): q[i] = (q[i] - M[k - 1][k - 1] * x) % p
        t = 1
        for i in range(1, k):
            t = t * M[k - i][k - i - 1] % p
            c = t * M[k - i - 1][k - 1] % p
            for j, x in enumerate(P[k - i - 1]): q[j] = (q[j] - c * x) % p
        P.append(q)
    return P[n]
def charpoly_mod2(M, q):
    """det(T - M) mod q for any modulus, division free (Berkowitz), low to high"""
    n = len(M); C = [1]
    for r in range(n):
        A = [row[:r] for row in M[:r]]; R = M[r][:r]; S = [M[i][r] for i in range(r)]
        t = [1, -M[r][r]]; v = S
        for _ in range(r): t.append(-sum(x * y for x, y in zip(R, v)) % q); v = [sum(x * y for x, y in zip(row, v)) % q for row in A]
        N = [0] * (r + 2)
        for i in range(r + 2):
            for j in range(len(C)):
                if 0 <= i - j < len(t): N[i] += t[i - j] * C[j]
        C = [x % q for x in N]
    return C[::-1]
