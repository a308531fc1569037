// Independent oracles: point counts over F_q by enumeration, Hasse-Witt matrices, Macaulay ranks, singular points.
// No code is shared with the library under test.
// Input lines:  id cmd p e nv nt  c u0..u_{nv-1}  c u0.. ...  [extra]     output:  id value...
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <map>
#include <string>
#include <sstream>
#include <iostream>
#include <algorithm>
using namespace std;
typedef long long ll; typedef vector<int> Mon;
struct Term { ll c; Mon u; };
static ll pw(ll b, ll e, ll m) { ll r = 1; b %= m; while(e) { if(e & 1) r = (__int128)r * b % m; b = (__int128)b * b % m; e >>= 1; } return r; }
// F_q: 0 is -1; g^k is k
struct Field {
    ll p; int e; ll q; vector<int> zech, logbase; vector<int> intlog;
    Field(ll p_, int e_) : p(p_), e(e_) {
        q = 1; for(int i = 0; i < e; i++) q *= p;
        vector<ll> ex(q - 1); vector<int> lg(q, -1); uint64_t s = 88172645463325252ull;
        for(;;) { // monic polynomial of degree e with a primitive root
            vector<ll> m(e); for(auto &x : m) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; x = s % p; }
            // x^e = -(m0 + m1 x + ...)
            if(m[0] == 0) continue;
            vector<ll> a(e, 0); a[0] = 1; bool ok = true; fill(lg.begin(), lg.end(), -1);
            for(ll k = 0; k < q - 1; k++) {
                ll v = 0; for(int i = e - 1; i >= 0; i--) v = v * p + a[i];
                if(lg[v] >= 0) { ok = false; break; }
                lg[v] = k; ex[k] = v;
                ll t = a[e-1]; for(int i = e - 1; i > 0; i--) a[i] = ((a[i-1] - t * m[i]) % p + p) % p; a[0] = ((-t * m[0]) % p + p) % p;
            }
            if(ok) break;
        }
        zech.resize(q - 1);
        for(ll k = 0; k < q - 1; k++) { ll v = ex[k], w = (v % p == p - 1) ? v - (p - 1) : v + 1; zech[k] = w == 0 ? -1 : lg[w]; }
        intlog.resize(p); for(ll c = 0; c < p; c++) intlog[c] = c == 0 ? -1 : lg[c];
    }
    inline int add(int a, int b) const { if(a < 0) return b; if(b < 0) return a; int d = b - a; if(d < 0) d += q - 1; int z = zech[d]; if(z < 0) return -1; z += a; return z >= q - 1 ? z - (q - 1) : z; }
    inline int mul(int a, int b) const { if(a < 0 || b < 0) return -1; int s = a + b; return s >= q - 1 ? s - (q - 1) : s; }
    inline int powv(int a, int k) const { if(k == 0) return 0; if(a < 0) return -1; return (int)((ll)a * k % (q - 1)); }
    int emb(ll c) const { c %= p; if(c < 0) c += p; return intlog[c]; }
};
static map<pair<ll,int>, Field *> fields;
static Field &field(ll p, int e) { Field *&f = fields[make_pair(p, e)]; if(!f) f = new Field(p, e); return *f; }
// polynomials over F_q with structure for repeated substitution of the first variable
struct Level { vector<Mon> mons; vector<int> to, ex; };
struct Sub {
    const Field &F; vector<Level> L; int nv; int maxdeg;
    Sub(const Field &F_, const vector<Mon> &m, int nv_) : F(F_), nv(nv_), maxdeg(0) {
        Level a; a.mons = m; L.push_back(a);
        for(int l = 0; l + 1 < nv; l++) { Level b; map<Mon,int> idx; Level &c = L[l]; c.to.resize(c.mons.size()); c.ex.resize(c.mons.size());
            for(size_t i = 0; i < c.mons.size(); i++) { c.ex[i] = c.mons[i][0]; Mon r(c.mons[i].begin() + 1, c.mons[i].end()); auto it = idx.find(r); if(it == idx.end()) { it = idx.insert(make_pair(r, (int)b.mons.size())).first; b.mons.push_back(r); } c.to[i] = it->second; }
            L.push_back(b); }
        for(auto &x : L.back().mons) maxdeg = max(maxdeg, nv ? x[0] : 0);
    }
    // affine zeros in all remaining variables
    ll zeros(int l, const vector<int> &v) const {
        if(nv == 0) { int s = -1; for(int x : v) s = F.add(s, x); return s < 0; }
        if(l == nv - 1) { vector<int> c(maxdeg + 1, -1); for(size_t i = 0; i < v.size(); i++) { int k = L[l].mons[i][0]; c[k] = F.add(c[k], v[i]); }
            bool z = true; for(int x : c) z = z && x < 0; if(z) return F.q;
            ll n = 0; if(c[0] < 0) n++;
            for(int x = 0; x < F.q - 1; x++) { int r = c[maxdeg]; for(int i = maxdeg - 1; i >= 0; i--) r = F.add(F.mul(r, x), c[i]); if(r < 0) n++; }
            return n; }
        ll n = 0; vector<int> w(L[l+1].mons.size());
        for(int x = -1; x < F.q - 1; x++) { fill(w.begin(), w.end(), -1); for(size_t i = 0; i < v.size(); i++) { if(v[i] < 0) continue; int t = F.mul(v[i], F.powv(x, L[l].ex[i])); w[L[l].to[i]] = F.add(w[L[l].to[i]], t); } n += zeros(l + 1, w); }
        return n;
    }
};
// projective zeros: strata x_0 = .. = x_{i-1} = 0, x_i = 1
static ll count_proj(const Field &F, const vector<Term> &f, int nv) {
    ll tot = 0;
    for(int i = 0; i < nv; i++) { vector<Mon> m; vector<int> v;
        for(auto &t : f) { bool z = false; for(int j = 0; j < i; j++) z = z || t.u[j] > 0; if(z) continue; m.push_back(Mon(t.u.begin() + i + 1, t.u.end())); v.push_back(F.emb(t.c)); }
        if(m.empty()) { ll k = 1; for(int j = i + 1; j < nv; j++) k *= F.q; tot += k; continue; }
        Sub S(F, m, nv - i - 1); tot += S.zeros(0, v); }
    return tot;
}
static int eval(const Field &F, const vector<Term> &f, const vector<int> &x) { int s = -1; for(auto &t : f) { int v = F.emb(t.c); for(size_t i = 0; i < x.size(); i++) v = F.mul(v, F.powv(x[i], t.u[i])); s = F.add(s, v); } return s; }
template<class G> static void each_point(const Field &F, int nv, G g) {
    for(int i = 0; i < nv; i++) { vector<int> x(nv, -1); x[i] = 0; for(;;) { if(!g(x)) return; int j = nv - 1; while(j > i && x[j] == F.q - 2) { x[j] = -1; j--; } if(j == i) break; x[j]++; } }
}
// w^d = g(x): sum over projective points of the number of w  (representatives fixed; deg g = d)
static ll count_cyclic(const Field &F, const vector<Term> &g, int nv, int d) {
    ll n = 0, q1 = F.q - 1, gc = __gcd((ll)d, q1);
    each_point(F, nv, [&](const vector<int> &x) { int v = eval(F, g, x); if(v < 0) n += 1; else if(v % gc == 0) n += gc; return true; });
    return n;
}
static vector<Term> partial(const vector<Term> &f, int i, ll p, bool toric) { vector<Term> r; for(auto t : f) { if(t.u[i] == 0) continue; t.c = t.c % p * t.u[i] % p; if(t.c < 0) t.c += p; if(!toric) t.u[i]--; if(t.c) r.push_back(t); } return r; }
static void tuples(int deg, int nv, Mon &cur, vector<Mon> &out) { if(nv == 1) { cur.push_back(deg); out.push_back(cur); cur.pop_back(); return; } for(int i = 0; i <= deg; i++) { cur.push_back(i); tuples(deg - i, nv - 1, cur, out); cur.pop_back(); } }
// is the ideal generated by the n+1 forms irrelevant? rank in the Macaulay degree
static bool irrelevant(const vector<vector<Term> > &G, int nv, ll p, int dg) {
    int D = nv * (dg - 1) + 1; vector<Mon> cols, rows; Mon c; tuples(D, nv, c, cols); tuples(D - dg, nv, c, rows); map<Mon,int> idx; for(size_t i = 0; i < cols.size(); i++) idx[cols[i]] = i;
    size_t n = cols.size(); vector<vector<uint32_t> > piv(n); size_t rank = 0;
    for(auto &g : G) { if(g.empty()) continue; for(auto &r : rows) {
        vector<uint32_t> v(n, 0); for(auto &t : g) { Mon u = r; for(int i = 0; i < nv; i++) u[i] += t.u[i]; int k = idx[u]; v[k] = (v[k] + t.c) % p; }
        for(size_t k = 0; k < n; k++) { if(!v[k]) continue; if(piv[k].empty()) { ll inv = pw(v[k], p - 2, p); for(size_t j = k; j < n; j++) v[j] = v[j] * inv % p; piv[k] = v; rank++; break; } ll m = p - v[k]; auto &w = piv[k]; for(size_t j = k; j < n; j++) if(w[j]) v[j] = (v[j] + m * w[j]) % p; }
        if(rank == n) return true; } }
    return rank == n;
}
int main() {
    string ln;
    while(getline(cin, ln)) {
        if(ln.empty()) continue; stringstream s(ln); string id, cmd; ll p; int e, nv, nt; s >> id >> cmd >> p >> e >> nv >> nt; vector<Term> f(nt); int d = 0;
        for(auto &t : f) { s >> t.c; t.c %= p; if(t.c < 0) t.c += p; t.u.resize(nv); d = 0; for(auto &x : t.u) { s >> x; d += x; } }
        vector<Term> g; for(auto &t : f) if(t.c) g.push_back(t); f = g;
        printf("%s", id.c_str());
        if(cmd == "count") printf(" %lld", count_proj(field(p, e), f, nv));
        else if(cmd == "cyclic") printf(" %lld", count_cyclic(field(p, e), f, nv, d));
        else if(cmd == "naive") { ll n = 0; const Field &F = field(p, e); each_point(F, nv, [&](const vector<int> &x) { if(eval(F, f, x) < 0) n++; return true; }); printf(" %lld", n); }
        else if(cmd == "smooth" || cmd == "nd") { vector<vector<Term> > G; for(int i = 0; i < nv; i++) G.push_back(partial(f, i, p, cmd == "nd")); printf(" %d", (int)irrelevant(G, nv, p, cmd == "nd" ? d : d - 1)); }
        else if(cmd == "singpt" || cmd == "torpt") { // is there a common zero over F_q?
            vector<vector<Term> > G; for(int i = 0; i < nv; i++) G.push_back(partial(f, i, p, cmd == "torpt")); const Field &F = field(p, e); bool found = false;
            each_point(F, nv, [&](const vector<int> &x) { bool z = true; for(auto &h : G) if(eval(F, h, x) >= 0) { z = false; break; } if(z) found = true; return !z; }); printf(" %d", (int)found); }
        else if(cmd == "hw") { // trailing: nothing. coefficient of x^{p u - v} in f^{p-1}, u, v > 0 of degree d
            vector<Mon> B, all; Mon c; tuples(d, nv, c, all); for(auto &u : all) if(*min_element(u.begin(), u.end()) > 0) B.push_back(u);
            int D = d * (p - 1), S = D + 1, n = nv - 1; size_t tot = 1; for(int i = 0; i < n; i++) tot *= S; vector<uint32_t> A(tot, 0), N; A[0] = 1;
            vector<size_t> off(f.size()); for(size_t i = 0; i < f.size(); i++) { size_t o = 0; for(int j = 0; j < n; j++) o = o * S + f[i].u[j]; off[i] = o; }
            for(int k = 0; k < p - 1; k++) { N.assign(tot, 0); for(size_t x = 0; x < tot; x++) if(A[x]) for(size_t i = 0; i < f.size(); i++) { size_t y = x + off[i]; N[y] = (N[y] + (ll)A[x] * f[i].c) % p; } A.swap(N); }
            for(auto &u : B) for(auto &v : B) { bool ok = true; size_t o = 0; for(int j = 0; j < nv; j++) { ll w = p * u[j] - v[j]; if(w < 0) ok = false; if(j < n) o = o * S + (ok ? w : 0); } printf(" %u", ok ? A[o] : 0); } }
        printf("\n"); fflush(stdout);
    }
}
