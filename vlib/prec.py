"""Guaranteed digits of truncated Frobenius columns (see DESIGN.md, P24)."""
from . import weil as W
def vfact(m, p):
    s = 0
    while m > 0: m //= p; s += m
    return s
def flog(p, x):
    k = 0
    while p ** (k + 1) <= x: k += 1
    return k
def loss(e, n, p):
    """denominators met when a form of pole order e is reduced"""
    return min(vfact(e - 1, p), sum(flog(p, (e - 1) // k) for k in range(1, n)))
def digits(n, p, m, Nm, precision):
    """number of correct p-adic digits of a column of pole order m with Nm terms at this working precision"""
    c = min(n - 1 + j - loss(p * (m + j), n, p) for j in range(Nm, Nm + 60))
    if Nm > 0: c = min(c, precision + (n - 1) - vfact(p * (m + Nm - 1) - 1, p))
    return c
def coefficient_digits(n, d, p, N, precision):
    """list over j = 1..b: correct digits of the coefficient of T^(b-j) of the characteristic polynomial"""
    h = W.hodge(n, d); b = sum(h); c = [digits(n, p, m, N[m - 1], precision) for m in range(1, n + 1)]
    vals = sorted(n - m for m in range(1, n + 1) for _ in range(h[m - 1])); out = []
    pre = {}
    for m in range(1, n + 1):
        v = list(vals)
        if not h[m - 1]: continue
        v.remove(n - m); acc = [0]
        for x in v: acc.append(acc[-1] + x)
        pre[m] = acc
    return [min(c[m - 1] + pre[m][j - 1] for m in pre) for j in range(1, b + 1)], c
def precision_for(n, p, N):
    """a working precision for these truncations, every column exact to the digits the truncation leaves"""
    return max([1] + [digits(n, p, m, N[m - 1], 10 ** 6) - (n - 1) + vfact(p * (m + N[m - 1] - 1) - 1, p) for m in range(1, n + 1) if N[m - 1] > 0])
def word_precisions(p, lo=1, bits=(31, 32, 33, 62, 63, 64, 65, 127, 128)):
    """precisions k >= lo with p^k just below or above a machine word"""
    return [k for k in range(max(1, lo), 90) if (p ** k).bit_length() in bits]
