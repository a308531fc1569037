"""Integer Weil polynomials of a given weight and degree (low to high)."""
from math import isqrt
from . import weil as W
def factors(r, q, w_even, m):
    """a monic factor of even degree m in {2, 4} with all roots of absolute value sqrt(q), from a totally real polynomial in y = T + q/T"""
    B = isqrt(4 * q)
    while True:
        if m == 2: h = [-r.choice([r.randint(-B, B), r.choice([-B, B, 0, 1, -1])]), 1]
        else:
            s = r.randint(-2 * B, 2 * B); t = r.randint(-4 * q, 4 * q); h = [t, -s, 1]; D = s * s - 4 * t
            if D < 0: continue
        if W.all_roots_real_bounded(h, 4 * q): break
    g = len(h) - 1; out = [0] * (2 * g + 1)
    for k, c in enumerate(h):  # c (T^2+q)^k T^(g-k)
        t = [1]
        for _ in range(k): t = W.mul(t, [q, 0, 1])
        for i, x in enumerate(t): out[i + g - k] += c * x
    return out
def weil(r, p, w, b, style=None):
    """weight w, degree b; if w is even real roots +-p^(w/2) are allowed"""
    q = p ** w; cp = [1]; style = style or r.choice(["random", "few", "power", "extreme", "sparse"]); e = w % 2 == 0
    if style == "sparse" and b > 0:
        # T^b +- p^(bw/2)
        s = 1 if not e else r.choice([1, -1])
        if (b * w) % 2 == 0: return [s * p ** (b * w // 2)] + [0] * (b - 1) + [1]
    if e:
        x = p ** (w // 2); k = b % 2 + 2 * r.randint(0, min(b // 2, r.choice([0, 1, 3, 20])))
        for _ in range(k): cp = W.mul(cp, [r.choice([x, -x]), 1])
    pool = [factors(r, q, e, 2) for _ in range(2)]
    while len(cp) <= b:
        room = b + 1 - len(cp)
        if style == "few": f = r.choice(pool)
        elif style == "extreme": B = isqrt(4 * q); f = [q, r.choice([B, -B, B, 0]), 1]
        elif style == "power": f = pool[0]
        else: f = factors(r, q, e, r.choice([2, 4] if room >= 4 else [2]))
        cp = W.mul(cp, f)
    assert len(cp) == b + 1
    return cp
def companion(c):
    """integer matrix with characteristic polynomial c"""
    n = len(c) - 1; return [[(-c[i] if j == n - 1 else 0) + int(i == j + 1 and j < n - 1) for j in range(n)] for i in range(n)] if n > 1 else [[-c[0]]]
