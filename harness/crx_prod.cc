#include "crx.h"
// conversions: round trips through every representation, also printed for comparison
CMD(conv_int) {
    Vec<ZZ> v = c.get< Vec<ZZ> >("v"); Vec<ZZ> viaM, viaF; std::string ms, fs; 
    for(long i = 0; i < v.length(); i++) {
        mpz_t m; mpz_init_set_si(m, -12345); conv(m, v[i]); char *s = mpz_get_str(NULL, 10, m); ms += std::string(s) + " "; free(s);
        ZZ b; b = 99; conv(b, m); append(viaM, b); mpz_clear(m);
        fmpz_t f; fmpz_init(f); fmpz_set_str(f, "-123456789012345678901234567890", 10); conv(f, v[i]); s = fmpz_get_str(NULL, 10, f); fs += std::string(s) + " "; flint_free(s);
        b = -7; conv(b, f); append(viaF, b); fmpz_clear(f);
    }
    out_raw(c, "mpz", ms); out_raw(c, "fmpz", fs); out(c, "viaM", viaM); out(c, "viaF", viaF);
    // vectors
    fmpz *fv = _fmpz_vec_init(v.length() + 1); conv(fv, v); Vec<ZZ> back; conv(back, fv, v.length()); out(c, "vec", back); _fmpz_vec_clear(fv, v.length() + 1);
}
CMD(conv_mat) {
    Mat<ZZ> M = c.get< Mat<ZZ> >("M"); long r = M.NumRows(), k = M.NumCols();
    { mpz_t *A = new mpz_t[r*k + 1]; for(long i = 0; i < r*k; i++) mpz_init(A[i]); conv(A, M); Mat<ZZ> B; conv(B, A, r, k); out(c, "mpz", B);
      std::string s; for(long i = 0; i < r*k; i++) { char *t = mpz_get_str(NULL, 10, A[i]); s += std::string(t) + " "; free(t); } out_raw(c, "mpzflat", s);
      for(long i = 0; i < r*k; i++) mpz_clear(A[i]); delete[] A; }
    { fmpz_mat_t A; fmpz_mat_init(A, r, k); conv(A, M); Mat<ZZ> B; conv(B, A); out(c, "fmpz", B);
      std::string s; for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) { char *t = fmpz_get_str(NULL, 10, fmpz_mat_entry(A, i, j)); s += std::string(t) + " "; flint_free(t); } out_raw(c, "fmpzflat", s);
      if(c.has("mod")) { ZZ_pPush push(c.z("mod")); Mat<ZZ_p> P = conv< Mat<ZZ_p> >(M), Q; fmpz_mat_t C; fmpz_mat_init(C, r, k); conv(C, P); conv(Q, C); out(c, "ZZp", Q); outb(c, "ZZpsame", P == Q);
        fmpz *fv = _fmpz_vec_init(k + 1); bool same = true; for(long i = 0; i < r; i++) { conv(fv, P[i]); Vec<ZZ_p> w; conv(w, fv, k); same = same && w == P[i]; } outb(c, "ZZpvec", same); _fmpz_vec_clear(fv, k + 1); fmpz_mat_clear(C); }
      fmpz_mat_clear(A); }
    if(c.has("p")) { zz_pPush push(c.i("p")); Mat<zz_p> P = conv< Mat<zz_p> >(M), Q; nmod_mat_t A; nmod_mat_init(A, r, k, c.i("p")); conv(A, P); conv(Q, A); out(c, "nmod", Q); outb(c, "nmodsame", P == Q);
      std::string s; for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) s += std::to_string(nmod_mat_entry(A, i, j)) + " "; out_raw(c, "nmodflat", s); nmod_mat_clear(A);
      if(c.has("q")) { // into a modulus dividing p is a reduction
        nmod_mat_t B; nmod_mat_init(B, r, k, c.i("q")); conv(B, P); s.clear(); for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) s += std::to_string(nmod_mat_entry(B, i, j)) + " "; out_raw(c, "nmodq", s); nmod_mat_clear(B); } }
    if(c.has("mod")) { ZZ_pPush push(c.z("mod")); Mat<ZZ_p> P = conv< Mat<ZZ_p> >(M); if(c.has("q2")) { nmod_mat_t B; nmod_mat_init(B, r, k, conv<unsigned long>(c.z("q2"))); conv(B, P); std::string s; for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) s += std::to_string(nmod_mat_entry(B, i, j)) + " "; out_raw(c, "ZZp2nmod", s); nmod_mat_clear(B); } }
}
static mpz_t *mk(const Mat<ZZ> &M) { long r = M.NumRows(), k = M.NumCols(); mpz_t *A = new mpz_t[r*k + 1]; for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) { mpz_init(A[i*k+j]); std::stringstream s; s << M[i][j]; mpz_set_str(A[i*k+j], s.str().c_str(), 10); } return A; }
static mpz_t *mk(const Vec<ZZ> &v) { mpz_t *A = new mpz_t[v.length() + 1]; for(long i = 0; i < v.length(); i++) { mpz_init(A[i]); std::stringstream s; s << v[i]; mpz_set_str(A[i], s.str().c_str(), 10); } return A; }
static mpz_t *mk(long n) { mpz_t *A = new mpz_t[n + 1]; for(long i = 0; i < n; i++) mpz_init_set_si(A[i], 424242); return A; }
static void rm(mpz_t *A, long n) { for(long i = 0; i < n; i++) mpz_clear(A[i]); delete[] A; }
static std::string flat(mpz_t *A, long n) { std::string s; for(long i = 0; i < n; i++) { char *t = mpz_get_str(NULL, 10, A[i]); s += std::string(t) + " "; free(t); } return s; }
// products: A (r x k), B (k x l), v (k), scalar a, moduli
CMD(prod) {
    Mat<ZZ> A = c.get< Mat<ZZ> >("A"), B = c.get< Mat<ZZ> >("B"); Vec<ZZ> v = c.get< Vec<ZZ> >("v"), w = c.get< Vec<ZZ> >("w"); ZZ a = c.z("a");
    long r = A.NumRows(), k = A.NumCols(), l = B.NumCols(); Mat<ZZ> Bt = transpose(B);
    mpz_t *mA = mk(A), *mB = mk(B), *mBt = mk(Bt), *mv = mk(v), *mw = mk(w), *R;
    mpz_t ma; mpz_init(ma); { std::stringstream s; s << a; mpz_set_str(ma, s.str().c_str(), 10); }
    R = mk(r*l); mul(R, mA, r, k, mB, k, l); out_raw(c, "AB", flat(R, r*l)); rm(R, r*l);
    R = mk(r*l); mul_transpose(R, mA, r, k, mBt, k, l); out_raw(c, "ABt", flat(R, r*l)); rm(R, r*l);
    R = mk(r*k); mul(R, ma, mA, r, k); out_raw(c, "aA", flat(R, r*k)); rm(R, r*k);
    R = mk(r); mul(R, mA, r, k, mv, k); out_raw(c, "Av", flat(R, r)); rm(R, r);
    R = mk(k); mul(R, ma, mv, k); out_raw(c, "av", flat(R, k)); rm(R, k);
    R = mk(k); mul(R, mv, k, mw, k); out_raw(c, "v+w", flat(R, k)); rm(R, k);
    R = mk(v); mul(R, R, k, mw, k); out_raw(c, "v+=w", flat(R, k)); rm(R, k);
    R = mk(1); mul(R[0], mv, k, mw, k); out_raw(c, "vw", flat(R, 1)); rm(R, 1);
    rm(mA, r*k); rm(mB, k*l); rm(mBt, k*l); rm(mv, k); rm(mw, k); mpz_clear(ma);
    { fmpz_mat_t fA; fmpz_mat_init(fA, r, k); for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) { std::stringstream s; s << A[i][j]; fmpz_set_str(fmpz_mat_entry(fA, i, j), s.str().c_str(), 10); }
      fmpz *fv = _fmpz_vec_init(k), *fw = _fmpz_vec_init(k), *fr = _fmpz_vec_init(r); for(long i = 0; i < k; i++) { std::stringstream s; s << v[i]; fmpz_set_str(fv + i, s.str().c_str(), 10); std::stringstream t; t << w[i]; fmpz_set_str(fw + i, t.str().c_str(), 10); }
      mul(fr, fA, fv); std::string s; for(long i = 0; i < r; i++) { char *t = fmpz_get_str(NULL, 10, fr + i); s += std::string(t) + " "; flint_free(t); } out_raw(c, "fAv", s);
      fmpz_t x; fmpz_init(x); mul(x, fv, fw, k); char *t = fmpz_get_str(NULL, 10, x); out_raw(c, "fvw", t); flint_free(t); fmpz_clear(x);
      _fmpz_vec_clear(fv, k); _fmpz_vec_clear(fw, k); _fmpz_vec_clear(fr, r); fmpz_mat_clear(fA); }
    { unsigned long q = conv<unsigned long>(c.z("q")); nmod_t mod; nmod_init(&mod, q); nmod_mat_t nA, nB, nC; nmod_mat_init(nA, r, k, q); nmod_mat_init(nB, r, k, q); nmod_mat_init(nC, r, k, q);
      for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) { nmod_mat_entry(nA, i, j) = conv<unsigned long>(A[i][j] % conv<ZZ>(q)); nmod_mat_entry(nB, i, j) = conv<unsigned long>((A[i][j] * a + v[j]) % conv<ZZ>(q)); }
      nn_ptr x = _nmod_vec_init(k + 1), y = _nmod_vec_init(r + 1); for(long j = 0; j < k; j++) x[j] = conv<unsigned long>(v[j] % conv<ZZ>(q));
      mul(y, nA, x, nmod_vec_dot_params_compat(k, mod)); std::string s; for(long i = 0; i < r; i++) s += std::to_string(y[i]) + " "; out_raw(c, "nAv", s);
      nmod_mat_sub(nC, nA, nB); s.clear(); for(long i = 0; i < r; i++) for(long j = 0; j < k; j++) s += std::to_string(nmod_mat_entry(nC, i, j)) + " "; out_raw(c, "nsub", s);
      _nmod_vec_clear(x); _nmod_vec_clear(y); nmod_mat_clear(nA); nmod_mat_clear(nB); nmod_mat_clear(nC); }
    { Mat<ZZ> X; if(c.i("dirty", 0)) X.SetDims(1, 7); mul_transpose(X, A, Bt); out(c, "mt", X); Mat<ZZ> Y; transpose_mul_transpose(Y, A, Bt); out(c, "tmt", Y); }
    { ZZ_pPush push(c.z("mod")); Mat<ZZ_p> X, P = conv< Mat<ZZ_p> >(A), Q = conv< Mat<ZZ_p> >(Bt); mul_transpose(X, P, Q); out(c, "mtp", X); Mat<ZZ_p> Y; transpose_mul_transpose(Y, P, Q); out(c, "tmtp", Y); }
}
CMD(sl) { SetSeed(c.z("seed")); zz_pPush push(c.i("p")); int64_t t = c.i("times"); for(int64_t i = 0; i < t; i++) { Mat<zz_p> M = random_SL_matrix(c.i("n")); out(c, "M" + std::to_string(i), M); } }

