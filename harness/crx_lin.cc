#include "crx.h"
// linear solvers
CMD(solve_p) { // T over F_p; impl = ntl | flint | auto
    zz_pPush push(c.i("p"));
    Mat<ZZ> TT = c.get< Mat<ZZ> >("T"); Mat<zz_p> T; T.SetDims(c.i("rows"), c.i("cols"));
    for(long i = 0; i < T.NumRows(); i++) for(long j = 0; j < T.NumCols(); j++) T[i][j] = conv<zz_p>(TT[i][j]);
    Mat<zz_p> T0 = T;
    Vec<int64_t> B; Mat<zz_p> U; std::string impl = c.str("impl");
    if(c.i("dirty", 0)) { B.SetLength(3, 7); U.SetDims(2, 5); }
    if(impl == "ntl") solve_system_zz_p_NTL(B, U, T);
    else if(impl == "auto") solve_system_zz_p(B, U, T);
    else if(impl == "auto0") solve_system_zz_p(B, U, T, false);
    else {
        nmod_mat_t t, u; nmod_mat_init(t, T.NumRows(), T.NumCols(), zz_p::modulus());
        conv(t, T); // the routine initialises u
        solve_system_zz_p_flint(B, u, t);
        conv(U, u); nmod_mat_clear(t); nmod_mat_clear(u);
    }
    out(c, "B", B); out(c, "U", U); out(c, "rows", U.NumRows()); out(c, "cols", U.NumCols()); outb(c, "Tsame", T == T0);
}
CMD(solve_padic) {
    zz_pPush push(c.i("p")); ZZ_pPush push2(power_ZZ(c.i("p"), c.i("prec")));
    Mat<ZZ> TT = c.get< Mat<ZZ> >("T"); Mat<ZZ_p> T; T.SetDims(c.i("rows"), c.i("cols"));
    for(long i = 0; i < T.NumRows(); i++) for(long j = 0; j < T.NumCols(); j++) T[i][j] = conv<ZZ_p>(TT[i][j]);
    Mat<ZZ_p> T0 = T; Vec<int64_t> B; Mat<ZZ_p> U; std::string impl = c.str("impl");
    if(c.i("dirty", 0)) { B.SetLength(3, 7); U.SetDims(c.i("rows"), c.i("rows")); for(long i = 0; i < U.NumRows(); i++) for(long j = 0; j < U.NumCols(); j++) U[i][j] = 1; }
    if(impl == "ntl") solve_system_padic_NTL(B, U, T, c.i("prec"));
    else if(impl == "flint") solve_system_padic_flint(B, U, T, c.i("prec"));
    else if(impl == "auto") solve_system_padic(B, U, T, c.i("prec"));
    else solve_system_padic(B, U, T, c.i("prec"), false);
    out(c, "B", B); out(c, "U", U); out(c, "rows", U.NumRows()); out(c, "cols", U.NumCols()); outb(c, "Tsame", T == T0);
    out(c, "mod", ZZ_p::modulus()); out(c, "modp", zz_p::modulus());
}
// characteristic polynomials
CMD(charpoly) { Mat<ZZ> M = c.get< Mat<ZZ> >("M"); out(c, "cp", charpoly(M)); out(c, "tr", trace(M)); }
CMD(charpoly_frob) {
    Mat<ZZ> M = c.get< Mat<ZZ> >("M"); Vec<int64_t> prec = c.get< Vec<int64_t> >("prec");
    out(c, "cp", charpoly_frob(M, prec, c.i("p"), c.i("dim")));
}
