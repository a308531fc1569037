#include "crx.h"
#include <omp.h>
#include <random>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <memory>

struct Ctx { zz_pPush a; ZZ_pPush b; Ctx(int64_t p, int64_t prec) : a(p), b(power_ZZ(p, prec)) {} };

static Vec<ZZ> dense(const polyZZ &f, int64_t n, int64_t d, int64_t cut = 0) {
    Vec< Vec<int64_t> > T; tuple_list_generator(T, d, n + 1);
    Vec<ZZ> r; r.SetLength(T.length());
    for(long i = 0; i < T.length(); i++) { auto it = f.find(T[i]); if(it != f.end()) r[i] = it->second; }
    if(cut) { Vec<ZZ> s; s.SetLength(T.length() + cut); for(long i = 0; i < s.length(); i++) s[i] = i < r.length() ? r[i] : ZZ(1); return s; }
    return r;
}
static int64_t nvars(const polyZZ &f) { return f.begin()->first.length(); }
static int64_t degree(const polyZZ &f) { int64_t s = 0; for(long i = 0; i < nvars(f); i++) s += f.begin()->first[i]; return s; }

// ctor: mapZ (p-adic map), mapz (residue map), vecZ, vecz
template<class H> static std::shared_ptr<H> make(const Case &c) {
    polyZZ f = get_poly(c);
    int64_t p = c.i("p"), prec = c.i("prec"), n = nvars(f) - 1, d = degree(f);
    bool verbose = c.i("verbose", 0);
    std::string ctor = c.has("ctor") ? c.str("ctor") : "mapZ";
    if(ctor == "mapZ") return std::make_shared<H>(p, prec, to_Zp(f), verbose);
    if(ctor == "mapz") return std::make_shared<H>(p, prec, to_zp(f), verbose);
    if(ctor == "vecZ") return std::make_shared<H>(p, prec, n, d, conv< Vec<ZZ_p> >(dense(f, n, d, c.i("cut", 0))), verbose);
    if(ctor == "vecz") return std::make_shared<H>(p, prec, n, d, conv< Vec<zz_p> >(dense(f, n, d, c.i("cut", 0))), verbose);
    if(ctor == "rand") { SetSeed(c.z("seed")); return std::make_shared<H>(p, prec, n, d, verbose); }
    fprintf(stderr, "HARNESS: ctor\n"); _exit(97);
}

// coordinates of monomials in the cohomology basis
CMD(coords) {
    Ctx ctx(c.i("p"), c.i("prec"));
    std::string cls = c.str("cls");
    Vec< Vec<int64_t> > us = c.get< Vec< Vec<int64_t> > >("us");
    Mat<ZZ_p> R; Vec< Vec<ZZ_p> > rows; rows.SetLength(us.length());
    std::shared_ptr<de_Rham_local> D; std::shared_ptr<de_Rham_non_degenerate_local> DN;
    if(cls == "J") D = make<de_Rham_local>(c); else D = DN = make<de_Rham_non_degenerate_local>(c);
    if(c.i("everything", 0)) { if(DN) DN->compute_everything_ND(true, true); else D->compute_everything_J(); }
    out(c, "basis", D->coKernels_J_basis);
    out(c, "hilbert", D->Hilbert_J);
    out(c, "n", D->n); out(c, "d", D->d);
    out_poly(c, "f", D->f); out_poly(c, "fbar", D->fbar);
    for(long i = 0; i < us.length(); i++) rows[i] = D->monomial_to_basis_J(us[i]);
    out(c, "J", rows);
    if(DN) { for(long i = 0; i < us.length(); i++) rows[i] = DN->monomial_to_basis_ND(us[i]); out(c, "ND", rows); out(c, "basisND", DN->coKernels_ND_basis); }
}

static std::string vs(const Vec<int64_t> &v) { std::stringstream s; s << v; return s.str(); }
static int64_t tot(const Vec<int64_t> &v) { int64_t s = 0; for(long i = 0; i < v.length(); i++) s += v[i]; return s; }

// w: a vector of huge entries with the total of a vector of the same kind; congruent to u modulo p^prec when that fits
template<class F> static void huge_shift(Vec<int64_t> &w, const Vec<int64_t> &u, const Vec<int64_t> &v, F rnd, int64_t p, int64_t prec, int64_t d) {
    w = u; ZZ q = power_ZZ(p, prec); int64_t m = NumBits(q) < 34 ? conv<long>(q) : 1;
    for(long i = 0; i < w.length(); i++) if(v[i] > 0 && rnd(4)) w[i] += d * m * (1 + rnd((int64_t)1 << (1 + rnd(std::max<int64_t>(1, 44 - NumBits(ZZ(m)) - NumBits(ZZ(d)))))));
}
static bool same_mod(const Vec<int64_t> &u, const Vec<int64_t> &w, const ZZ &q) { for(long i = 0; i < u.length(); i++) if((ZZ(u[i]) - w[i]) % q != 0) return false; return true; }
// walks: random reduction paths, every implementation of a step, against the direct coordinates
CMD(walks) {
    Ctx ctx(c.i("p"), c.i("prec"));
    std::mt19937_64 rng(c.i("seed")); auto rnd = [&](int64_t k) { return (int64_t)(rng() % (uint64_t) k); };
    std::string cls = c.str("cls");
    int64_t trials = c.i("trials"), maxm = c.i("maxm"), cols = c.i("cols", 8);
    int64_t steps = 0, compared = 0, variants = 0, polys = 0, longest = 0; std::string bad;
    auto fail = [&](const std::string &s) { if(bad.size() < 600) bad += s + "; "; };
    int64_t big = c.i("big", 0);
    if(cls == "J") {
        auto D = make<de_Rham_local>(c); int64_t n = D->n, d = D->d;
        auto &deg = D->tuple_list[d*n - n]; int64_t dim = deg.length();
        auto randG = [&]() { Vec<ZZ_p> G; G.SetLength(dim); for(long i = 0; i < dim; i++) if(rnd(3)) G[i] = random_ZZ_p(); return G; };
        SetSeed(conv<ZZ>(c.i("seed")));
        for(int64_t t = 0; t < trials; t++) {
            // u with |u| = n + d*k, possibly with zero entries
            int64_t k = 1 + rnd(maxm); if(k > longest) longest = k;
            Vec<int64_t> u0; u0.SetLength(n+1, 0);
            for(int64_t left = n + d*k; left > 0; left--) { int64_t i; do i = rnd(n+1); while(t % 3 == 2 && i == t % (n+1)); u0[i]++; }
            Vec<int64_t> u = u0, v; v.SetLength(n+1, 0);
            Mat<ZZ_p> M; ident(M, dim);
            bool ok = true;
            for(int64_t s = 0; s < k && ok; s++) {
                for(long i = 0; i <= n; i++) v[i] = u[i] > 0;
                while(tot(v) < d) { int64_t i = rnd(n+1); if(v[i] < u[i]) v[i]++; }
                Vec<int64_t> src = u; u = u - v; steps++;
                Mat<ZZ_p> R = D->get_reduction_matrix_J(u, v);
                if(t % 2 == 0) { // all implementations of this step
                    Vec<ZZ_p> G = randG(), E = R * G;
                    if(D->reduce_vector_J(u, v, G) != E) fail("reduce_vector_J u=" + vs(u) + " v=" + vs(v));
                    Vec<ZZ> gz = conv< Vec<ZZ> >(G), r;
                    D->reduce_vector_J_ZZ(r, u, v, gz); if(conv< Vec<ZZ_p> >(r) != E) fail("reduce_vector_J_ZZ u=" + vs(u) + " v=" + vs(v));
                    if(conv< Mat<ZZ_p> >(D->get_reduction_matrix_J_ZZ(u, v)) != R) fail("get_reduction_matrix_J_ZZ u=" + vs(u) + " v=" + vs(v));
                    variants += 3;
                }
                mul(M, R, M);
            }
            mul(M, *D->get_inclusion_matrix_J(u), M);
            mul(M, *D->get_final_reduction_matrix_J(n), M);
            for(int64_t q = 0; q < cols; q++) {
                int64_t g = rnd(dim); Vec<int64_t> w = u0 + deg[g]; bool pos = true;
                for(long i = 0; i <= n; i++) pos = pos && w[i] > 0;
                if(!pos) continue;
                Vec<ZZ_p> want = D->monomial_to_basis_J(w), got; got.SetLength(M.NumRows());
                for(long i = 0; i < M.NumRows(); i++) got[i] = M[i][g];
                compared++; if(want != got) fail("path from u=" + vs(u0) + " monomial " + vs(w));
            }
        }
        // exponents of any size: the step depends on u modulo p^precision only, and its implementations agree
        for(int64_t t = 0; t < c.i("huge", 0); t++) {
            Vec<int64_t> u, v, w; u.SetLength(n+1, 0); v.SetLength(n+1, 0);
            for(int64_t left = n; left > 0; left--) u[rnd(n+1)]++;
            for(long i = 0; i <= n; i++) v[i] = u[i] > 0;
            while(tot(v) < d) v[rnd(n+1)]++;
            huge_shift(w, u, v, rnd, c.i("p"), c.i("prec"), d);
            Mat<ZZ_p> R = D->get_reduction_matrix_J(u, v), S = D->get_reduction_matrix_J(w, v); variants++;
            std::string at = " u=" + vs(w) + " v=" + vs(v);
            if(same_mod(u, w, power_ZZ(c.i("p"), c.i("prec"))) && R != S) fail("get_reduction_matrix_J differs from the one at a congruent vector," + at);
            Vec<ZZ_p> G = randG(), E = S * G; Vec<ZZ> gz = conv< Vec<ZZ> >(G), r;
            if(D->reduce_vector_J(w, v, G) != E) fail("reduce_vector_J" + at);
            D->reduce_vector_J_ZZ(r, w, v, gz); if(conv< Vec<ZZ_p> >(r) != E) fail("reduce_vector_J_ZZ" + at);
            if(conv< Mat<ZZ_p> >(D->get_reduction_matrix_J_ZZ(w, v)) != S) fail("get_reduction_matrix_J_ZZ" + at);
            variants += 3;
        }
        // k steps at once along one direction = k single steps
        for(int64_t t = 0; t < trials; t++) {
            Vec<int64_t> u, v; u.SetLength(n+1, 0); v.SetLength(n+1, 0);
            for(int64_t left = n; left > 0; left--) u[rnd(n+1)]++;
            for(long i = 0; i <= n; i++) v[i] = u[i] > 0;
            while(tot(v) < d) v[rnd(n+1)]++;
            int64_t extra = rnd(3); for(int64_t e = 0; e < extra; e++) u = u + v;
            int64_t k = (big && t % 2) ? 1 + rnd(big) : 1 + rnd(7);
            Vec<ZZ_p> G = randG(), E = G, P;
            for(int64_t x = k - 1; x >= 0; x--) E = D->get_reduction_matrix_J(u + x * v, v) * E;
            D->reduce_vector_J_poly(P, u, v, k, G); if(P != E) fail("reduce_vector_J_poly k=" + std::to_string(k) + " u=" + vs(u) + " v=" + vs(v));
            Vec<ZZ> gz = conv< Vec<ZZ> >(G), r; D->reduce_vector_J_poly_ZZ(r, u, v, k, gz);
            if(conv< Vec<ZZ_p> >(r) != E) fail("reduce_vector_J_poly_ZZ k=" + std::to_string(k) + " u=" + vs(u) + " v=" + vs(v));
            polys += 2; steps += k;
        }
    } else {
        auto D = make<de_Rham_non_degenerate_local>(c); int64_t n = D->n, d = D->d;
        auto &bas = D->coKernels_ND_basis; int64_t dim = bas.length();
        auto randG = [&]() { Vec<ZZ_p> G; G.SetLength(dim); for(long i = 0; i < dim; i++) if(rnd(3)) G[i] = random_ZZ_p(); return G; };
        SetSeed(conv<ZZ>(c.i("seed")));
        for(int64_t t = 0; t < trials; t++) {
            int64_t k = rnd(maxm + 1); if(k > longest) longest = k;
            Vec<int64_t> u0; u0.SetLength(n+1, 0); for(long i = 0; i <= n; i++) u0[i] = 1;
            for(int64_t left = d*(k+1) - (n+1); left > 0; left--) u0[rnd(n+1)]++;
            Vec<int64_t> u = u0, v; v.SetLength(n+1, 0);
            Mat<ZZ_p> M; ident(M, dim);
            for(int64_t s = 0; s < k; s++) {
                for(long i = 0; i <= n; i++) v[i] = 0;
                while(tot(v) < d) { int64_t i = rnd(n+1); if(v[i] + 1 < u[i]) v[i]++; }
                u = u - v; steps++;
                Mat<ZZ_p> R = D->get_reduction_matrix_ND(u, v);
                if(t % 2 == 0) {
                    Vec<ZZ_p> G = randG(), E = R * G, P; Vec<ZZ> gz = conv< Vec<ZZ> >(G), r;
                    D->reduce_vector_ND(P, u, v, G); if(P != E) fail("reduce_vector_ND u=" + vs(u) + " v=" + vs(v));
                    D->reduce_vector_ND_ZZ(r, u, v, gz); if(conv< Vec<ZZ_p> >(r) != E) fail("reduce_vector_ND_ZZ u=" + vs(u) + " v=" + vs(v));
                    if(conv< Mat<ZZ_p> >(D->get_reduction_matrix_ND_ZZ(u, v)) != R) fail("get_reduction_matrix_ND_ZZ u=" + vs(u) + " v=" + vs(v));
                    variants += 3;
                }
                mul(M, R, M);
            }
            mul(M, *D->get_coKernels_ND_to_basis(u), M);
            for(int64_t q = 0; q < cols; q++) {
                int64_t g = rnd(dim); Vec<int64_t> w = u0 + bas[g];
                Vec<ZZ_p> want = D->monomial_to_basis_ND(w), wantJ = D->monomial_to_basis_J(w), got; got.SetLength(M.NumRows());
                for(long i = 0; i < M.NumRows(); i++) got[i] = M[i][g];
                compared++; if(want != got) fail("path from u=" + vs(u0) + " monomial " + vs(w));
                if(wantJ != got) fail("J/ND from u=" + vs(u0) + " monomial " + vs(w));
            }
        }
        // exponents of any size: the step depends on u modulo p^precision only, and its implementations agree
        for(int64_t t = 0; t < c.i("huge", 0); t++) {
            Vec<int64_t> u, v, w; u.SetLength(n+1, 0); v.SetLength(n+1, 0);
            for(long i = 0; i <= n; i++) u[i] = 1;
            for(int64_t left = d * (1 + rnd(2)) - (n+1); left > 0; left--) u[rnd(n+1)]++;
            while(tot(v) < d) v[rnd(n+1)]++;
            huge_shift(w, u, v, rnd, c.i("p"), c.i("prec"), d);
            Mat<ZZ_p> R = D->get_reduction_matrix_ND(u, v), S = D->get_reduction_matrix_ND(w, v); variants++;
            std::string at = " u=" + vs(w) + " v=" + vs(v);
            if(same_mod(u, w, power_ZZ(c.i("p"), c.i("prec"))) && R != S) fail("get_reduction_matrix_ND differs from the one at a congruent vector," + at);
            Vec<ZZ_p> G = randG(), E = S * G; Vec<ZZ> gz = conv< Vec<ZZ> >(G), r;
            Vec<ZZ_p> P; D->reduce_vector_ND(P, w, v, G); if(P != E) fail("reduce_vector_ND" + at);
            D->reduce_vector_ND_ZZ(r, w, v, gz); if(conv< Vec<ZZ_p> >(r) != E) fail("reduce_vector_ND_ZZ" + at);
            if(conv< Mat<ZZ_p> >(D->get_reduction_matrix_ND_ZZ(w, v)) != S) fail("get_reduction_matrix_ND_ZZ" + at);
            variants += 3;
        }
        for(int64_t t = 0; t < trials; t++) {
            Vec<int64_t> u, v; u.SetLength(n+1, 0); v.SetLength(n+1, 0);
            for(long i = 0; i <= n; i++) u[i] = 1;
            for(int64_t left = d - (n+1); left > 0; left--) u[rnd(n+1)]++;
            while(tot(v) < d) v[rnd(n+1)]++;
            int64_t extra = rnd(3); for(int64_t e = 0; e < extra; e++) u = u + v;
            int64_t k = (big && t % 2) ? 1 + rnd(big) : 1 + rnd(7);
            Vec<ZZ_p> G = randG(), E = G, P;
            for(int64_t x = k - 1; x >= 0; x--) E = D->get_reduction_matrix_ND(u + x * v, v) * E;
            std::string w = " k=" + std::to_string(k) + " u=" + vs(u) + " v=" + vs(v);
            D->reduce_vector_ND_poly(P, u, v, k, G); if(P != E) fail("reduce_vector_ND_poly" + w);
            Vec<ZZ> gz = conv< Vec<ZZ> >(G), r; D->reduce_vector_ND_poly_ZZ(r, u, v, k, gz);
            if(conv< Vec<ZZ_p> >(r) != E) fail("reduce_vector_ND_poly_ZZ" + w);
            fmpz_mat_struct *poly = new fmpz_mat_struct[n + 2];
            for(long i = 0; i < n + 2; i++) fmpz_mat_init(poly + i, dim, dim);
            fmpz *fg = _fmpz_vec_init(dim), *fr = _fmpz_vec_init(dim); conv(fg, G);
            fmpz_t mod; fmpz_init(mod); conv(mod, ZZ_p::modulus());
            D->get_ND_poly_flint(poly, u, v);
            D->reduce_vector_ND_poly_flint(fr, poly, k, fg, mod);
            conv(P, fr, dim); if(P != E) fail("reduce_vector_ND_poly_flint" + w);
            D->reduce_vector_ND_poly_flint(fg, poly, k, fg, mod); // in place, as the library calls it
            conv(P, fg, dim); if(P != E) fail("reduce_vector_ND_poly_flint in place" + w);
            for(long i = 0; i < n + 2; i++) fmpz_mat_clear(poly + i);
            delete[] poly; _fmpz_vec_clear(fg, dim); _fmpz_vec_clear(fr, dim); fmpz_clear(mod);
            polys += 4; steps += k;
        }
    }
    out(c, "steps", steps); out(c, "compared", compared); out(c, "variants", variants); out(c, "polys", polys); out(c, "longest", longest);
    out_raw(c, "bad", bad);
}

// frob: every requested implementation of the Frobenius columns
// N=[..]; methods=space separated list of J, ND, JZ0..2 (frob_J_ZZ loop), Jp0..2, NZ0..2, Np0..1, NF (flint), NDc
CMD(frob) {
    if(c.has("threads")) omp_set_num_threads(c.i("threads")); else omp_set_num_threads(1);
    Ctx ctx(c.i("p"), c.i("prec"));
    Vec<int64_t> N = c.get< Vec<int64_t> >("N");
    std::string cls = c.str("cls");
    std::shared_ptr<hypersurface> H; std::shared_ptr<hypersurface_non_degenerate> HN;
    if(cls == "J") H = make<hypersurface>(c); else H = HN = make<hypersurface_non_degenerate>(c);
    auto &bas = H->dR->coKernels_J_basis;
    out(c, "basis", bas);
    if(c.i("showf", 0)) out_poly(c, "f", H->dR->f);
    std::stringstream ms(c.str("methods")); std::string m;
    std::vector<int64_t> order; for(long i = 0; i < bas.length(); i++) order.push_back(i);
    if(c.has("order")) { std::mt19937_64 r(c.i("order")); std::shuffle(order.begin(), order.end(), r); }
    if(c.i("lowfirst", 0)) std::stable_sort(order.begin(), order.end(), [&](int64_t a, int64_t b) { return tot(bas[a]) < tot(bas[b]); });
    int64_t maxcols = c.i("maxcols", 1000000);
    while(ms >> m) {
        Mat<ZZ_p> F; F.SetDims(bas.length(), bas.length()); Vec<int64_t> done_cols;
        if(m == "J") F = H->frob_matrix_J(N);
        else if(m == "ND") F = HN->frob_matrix_ND(N);
        else {
            int64_t done = 0;
            for(int64_t i : order) {
                int64_t k = (tot(bas[i]) + H->n + 1) / H->d, Nk = N[k-1];
                if(Nk <= 0) continue;
                if(done++ >= maxcols) break;
                Vec<ZZ_p> col;
                if(m == "Jc") col = H->frob_J(i, Nk);
                else if(m == "NDc") col = HN->frob_ND(i, Nk);
                else if(m == "NF") col = HN->frob_ND_flint(i, Nk);
                else if(m.substr(0,2) == "JZ") col = H->frob_J_ZZ(i, Nk, m[2]-'0');
                else if(m.substr(0,2) == "Jp") col = H->frob_J_ZZ_p(i, Nk, m[2]-'0');
                else if(m.substr(0,2) == "NZ") col = HN->frob_ND_ZZ(i, Nk, m[2]-'0');
                else if(m.substr(0,2) == "Np") col = HN->frob_ND_ZZ_p(i, Nk, m[2]-'0');
                else { fprintf(stderr, "HARNESS: method\n"); _exit(97); }
                F[i] = col; append(done_cols, i);
            }
            out(c, "C." + m, done_cols);
            F = transpose(F);
        }
        out(c, "F." + m, F);
    }
    omp_set_num_threads(1);
}

// smooth: isSmooth, isND on a list of polynomials  (fs = number; mon0 coef0 mon1 ...)
CMD(selftest) { // the library's own consistency tests, on a given equation
    Ctx ctx(c.i("p"), c.i("prec")); SetSeed(c.z("seed")); std::shared_ptr<de_Rham_local> D; std::shared_ptr<de_Rham_non_degenerate_local> DN;
    if(c.str("cls") == "J") D = make<de_Rham_local>(c); else D = DN = make<de_Rham_non_degenerate_local>(c);
    outb(c, "paths", DN ? DN->test_paths_ND(c.i("trials"), 3) : D->test_paths_J(c.i("trials"), 3)); outb(c, "basis", DN ? DN->test_monomial_to_basis_ND(c.i("N")) : D->test_monomial_to_basis_J(c.i("N")));
}
CMD(smooth) {
    zz_pPush push(c.i("p")); 
    // the p-adic modulus in force is the caller's business
    ZZ_pPush push2(power_ZZ(c.i("p"), c.i("prec", 1)));
    polyzp f = to_zp(get_poly(c));
    outb(c, "smooth", isSmooth(f));
    if(c.i("nd", 1)) outb(c, "nd", isND(f));
}
CMD(fcov) {
    SetSeed(c.z("seed"));
    zz_pPush push(c.i("p")); ZZ_pPush push2(power_ZZ(c.i("p"), c.i("prec", 1)));
    polyzp f = to_zp(get_poly(c));
    outb(c, "nd", isND(f));
    Mat<zz_p> M = c.has("tries") ? find_change_of_variables(f, c.i("tries")) : find_change_of_variables(f);
    out(c, "M", M); out(c, "det", determinant(M));
    polyzp g = change_of_variables<zz_p>(f, M);
    out_poly(c, "g", g);
    if(!IsZero(M)) { outb(c, "ndg", isND(g)); outb(c, "smooth", isSmooth(f)); outb(c, "smoothg", isSmooth(g)); }
}

// save / reload
CMD(save) {
    Ctx ctx(c.i("p"), c.i("prec")); omp_set_num_threads(c.i("threads", 1));
    std::string cls = c.str("cls"), file = c.str("file"), file2 = file + c.str("suffix");
    Vec<int64_t> N = c.get< Vec<int64_t> >("N");
    bool warm = c.i("warm", 0);
    Vec< Vec<int64_t> > us = c.get< Vec< Vec<int64_t> > >("us");
    auto dump = [&](const std::string &pre, de_Rham_local &D) {
        out_poly(c, pre + "f", D.f); out_poly(c, pre + "fbar", D.fbar);
        out(c, pre + "basis", D.coKernels_J_basis); out(c, pre + "hilbert", D.Hilbert_J);
        std::stringstream s; s << D.p << " " << D.precision << " " << D.verbose << " " << D.save_memory << " " << D.n << " " << D.d;
        out_raw(c, pre + "scalars", s.str());
        for(auto &x : D.solve_J) { std::stringstream t; t << x.second.first << " " << x.second.second; out_raw(c, pre + "solve." + std::to_string(x.first), t.str()); }
        Vec< Vec<ZZ_p> > r; r.SetLength(us.length()); for(long i = 0; i < us.length(); i++) r[i] = D.monomial_to_basis_J(us[i]); out(c, pre + "coords", r);
    };
    if(cls == "J") {
        auto H = make<hypersurface>(c);
        if(warm) H->dR->compute_everything_J();
        outb(c, "saved", H->save(file.c_str())); 
        out(c, "a.F", H->frob_matrix_J(N)); dump("a.", *H->dR);
        hypersurface L(file.c_str());
        std::stringstream s; s << L.p << " " << L.precision << " " << L.n << " " << L.d; out_raw(c, "b.hs", s.str());
        out(c, "b.F", L.frob_matrix_J(N)); dump("b.", *L.dR);
        outb(c, "saved2", L.save(file2.c_str()));
    } else {
        auto H = make<hypersurface_non_degenerate>(c);
        if(warm) H->dR_ND->compute_everything_ND(true, true);
        outb(c, "saved", H->save(file.c_str()));
        out(c, "a.F", H->frob_matrix_ND(N)); out(c, "a.FJ", H->frob_matrix_J(N)); dump("a.", *H->dR); out(c, "a.nd", H->dR_ND->coKernels_ND_basis); out(c, "a.hnd", H->dR_ND->Hilbert_ND);
        hypersurface_non_degenerate L(file.c_str());
        std::stringstream s; s << L.p << " " << L.precision << " " << L.n << " " << L.d; out_raw(c, "b.hs", s.str());
        out(c, "b.F", L.frob_matrix_ND(N)); out(c, "b.FJ", L.frob_matrix_J(N)); dump("b.", *L.dR); out(c, "b.nd", L.dR_ND->coKernels_ND_basis); out(c, "b.hnd", L.dR_ND->Hilbert_ND);
        outb(c, "saved2", L.save(file2.c_str()));
    }
}
// savefail: only the return value of save under a destination that cannot hold the file
CMD(savefail) {
    Ctx ctx(c.i("p"), c.i("prec"));
    signal(SIGXFSZ, SIG_IGN);
    auto go = [&](auto H) {
        struct rlimit old, rl; getrlimit(RLIMIT_FSIZE, &old); rl = old;
        if(c.has("limit")) { rl.rlim_cur = c.i("limit"); setrlimit(RLIMIT_FSIZE, &rl); }
        // a limited file size applies to stdout too when that is a file: results go out after it is lifted
        bool r = H->save(c.str("file").c_str());
        setrlimit(RLIMIT_FSIZE, &old); outb(c, "saved", r);
    };
    if(c.str("cls") == "J") go(make<hypersurface>(c)); else go(make<hypersurface_non_degenerate>(c));
}
CMD(load) {
    Ctx ctx(c.i("p"), c.i("prec")); 
    if(c.str("cls") == "J") { hypersurface L(c.str("file").c_str()); out(c, "F", L.frob_matrix_J(c.get< Vec<int64_t> >("N"))); }
    else { hypersurface_non_degenerate L(c.str("file").c_str()); out(c, "F", L.frob_matrix_ND(c.get< Vec<int64_t> >("N"))); }
}
