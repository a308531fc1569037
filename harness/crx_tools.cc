#include "crx.h"
CMD(picard) { out(c, "rho", geometric_picard(c.get< Vec<ZZ> >("cp"), c.i("p"), c.i("dim"))); }
CMD(default_args) {
    int64_t precision = -1; Vec<int64_t> N, cp; if(c.i("dirty", 0)) { N.SetLength(9, 9); cp.SetLength(4, 4); }
    default_args(precision, N, cp, c.i("p"), c.i("n"), c.i("d")); out(c, "precision", precision); out(c, "N", N); out(c, "cp", cp);
}

// numbers
CMD(numbers) {
    int64_t n = c.i("n"), p = c.i("p"); std::stringstream b, bz, v, t;
    for(int64_t k = 0; k <= n; k++) { if(n <= c.i("bmax", 60)) b << binomial(n, k) << " "; bz << binomial_ZZ(n, k) << " "; }
    out_raw(c, "binomial", b.str()); out_raw(c, "binomialZZ", bz.str());
    out(c, "val", valuation_of_factorial(n, p));
    { int64_t prec = c.i("prec"), start = c.i("start", 1); ZZ_pPush push(power_ZZ(p, prec)); ZZ_p r; int64_t w = factorial_p_adic(r, n, p, start); out(c, "padic_val", w); out(c, "padic", r);
      out(c, "factp", factorial<ZZ_p>(n, start)); }
    out(c, "fact", factorial<ZZ>(n)); out(c, "fact_from", factorial<ZZ>(n, c.i("start", 1)));
    if(n <= 20) out(c, "fact_i", factorial<int64_t>(n));
}
// arguments of any size, short ranges
CMD(huge) {
    int64_t n = c.i("n"), p = c.i("p"), k = c.i("k"), start = c.i("start");
    ZZ_pPush push(power_ZZ(p, c.i("prec"))); ZZ_p u; 
    out(c, "val", valuation_of_factorial(n, p)); out(c, "binomialZZ", binomial_ZZ(n, k)); out(c, "fact", factorial<ZZ>(n, start)); out(c, "padic_val", factorial_p_adic(u, n, p, start)); out(c, "padic", u);
}
CMD(binom) { out(c, "x", binomial(c.i("n"), c.i("k"))); }
CMD(tuples) { Vec< Vec<int64_t> > T; if(c.i("dirty", 0)) T.SetLength(4); tuple_list_generator(T, c.i("deg"), c.i("nv")); out(c, "T", T); }
CMD(vecs) {
    Vec<int64_t> a = c.get< Vec<int64_t> >("a"), b = c.get< Vec<int64_t> >("b"); int64_t k = c.i("k"), r = c.i("r");
    out(c, "add", a + b); out(c, "sub", a - b); out(c, "smul", k * a); out(c, "dot", a * b); outb(c, "lt", a < b); outb(c, "gt", b < a); outb(c, "self", a < a);
    Vec< Vec<int64_t> > Mv = c.get< Vec< Vec<int64_t> > >("M"); Mat<int64_t> M; M.SetDims(Mv.length(), a.length()); for(long i = 0; i < Mv.length(); i++) M[i] = Mv[i];
    out(c, "Ma", M * a); out(c, "tweak", tweak(a, r)); out(c, "tweak_step", tweak_step(a)); for(long i = 0; i < a.length(); i++) if(a[i] > 0) out(c, "diff" + std::to_string(i), diff(a, i));
    int64_t *arr = new int64_t[a.length()]; conv(arr, a); Vec<int64_t> back; back.SetLength(1, 5); conv(back, arr, a.length()); out(c, "arr", back); delete[] arr; if(a.length()) out(c, "max", max(a));
}
CMD(order) { // the strict weak order behind every map of monomials
    Vec< Vec<int64_t> > V = c.get< Vec< Vec<int64_t> > >("V"); std::map< Vec<int64_t>, int64_t, vi64less > m; for(long i = 0; i < V.length(); i++) m[V[i]] = i; Vec< Vec<int64_t> > S; Vec<int64_t> I; for(auto &x : m) { append(S, x.first); append(I, x.second); } out(c, "S", S); out(c, "I", I);
    std::string s; for(long i = 0; i < V.length(); i++) { for(long j = 0; j < V.length(); j++) s += (V[i] < V[j]) ? '1' : '0'; s += ' '; } out_raw(c, "lt", s);
}
// change of variables over a chosen ring
CMD(chvar) {
    polyZZ f = get_poly(c); Mat<ZZ> M = c.get< Mat<ZZ> >("M"); std::string ring = c.str("ring");
    if(ring == "ZZ") out_poly(c, "g", change_of_variables<ZZ>(f, M));
    else if(ring == "ZZ_p") { ZZ_pPush push(c.z("mod")); out_poly(c, "g", change_of_variables<ZZ_p>(to_Zp(f), conv< Mat<ZZ_p> >(M))); }
    else { zz_pPush push(conv<long>(c.z("mod"))); out_poly(c, "g", change_of_variables<zz_p>(to_zp(f), conv< Mat<zz_p> >(M))); }
}
CMD(chmono) { std::map< Vec<int64_t>, int64_t, vi64less > m = change_of_variables_monomial(c.get< Vec<int64_t> >("u"), c.get< Vec<int64_t> >("v")); out_poly(c, "g", m); }
// text I/O
CMD(mapio) {
    polyZZ f = get_poly(c); std::stringstream s; s << f; out_raw(c, "text", s.str()); polyZZ g; Vec<int64_t> junk; junk.SetLength(f.empty() ? 3 : f.begin()->first.length(), 9); if(c.i("dirty", 0)) g[junk] = 5; s >> g; outb(c, "same", g == f); out_poly(c, "back", g); outb(c, "fail", s.fail());
    std::stringstream h; h <<= f; out_raw(c, "human", h.str());
    if(c.has("mod")) { ZZ_pPush push(c.z("mod")); polyZp a = to_Zp(f), b; std::stringstream t; t << a; t >> b; outb(c, "sameZp", a == b); std::stringstream h2; h2 <<= a; out_raw(c, "humanZp", h2.str()); }
    if(c.has("p")) { zz_pPush push(c.i("p")); polyzp a = to_zp(f), b; std::stringstream t; t << a; t >> b; outb(c, "samezp", a == b); }
    if(c.has("text")) { std::string txt = c.str("text"); for(auto &ch : txt) if(ch == '~') ch = '\n'; std::stringstream t(txt); polyZZ b; t >> b; out_poly(c, "parsed", b); }
}
CMD(humanio) { Mat<ZZ> M = c.get< Mat<ZZ> >("M"); Vec<ZZ> v = c.get< Vec<ZZ> >("v"); std::stringstream a, b, d; a <<= M; b <<= v; d <<= v[0]; out_raw(c, "M", a.str()); out_raw(c, "v", b.str()); out_raw(c, "x", d.str()); }
CMD(nop) { out(c, "x", 1); }
