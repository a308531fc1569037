#include "crx.h"
#include <omp.h>
static void run_zeta(const Case &c, ZZX &z, Mat<ZZ> &F, const std::string &via) {
    int64_t p = c.i("p", 0);
    bool verbose = c.i("verbose", 0);
    int threads = c.i("threads", 1), abs_p = c.i("abs", 0);
    bool inc = c.i("inc", 1), better = c.i("better", 1);
    Vec< Vec<int64_t> > m; Vec<ZZ> v;
    if(via != "text") { m = c.get< Vec< Vec<int64_t> > >("mon"); v = c.get< Vec<ZZ> >("coef"); }
    if(via == "map") {
        zeta_function(z, F, get_poly(c), p, verbose, threads, abs_p, inc, better);
    } else if(via == "text") {
        std::string t = c.str("text"); for(auto &ch : t) if(ch == '~') ch = '\n';
        zeta_function(z, F, t.c_str(), verbose, threads, abs_p, inc, better);
    } else if(via == "string") {
        // the monomials are written in the order given by the caller
        std::stringstream s; s << p << "\n" << m << "\n" << v << "\n";
        zeta_function(z, F, s.str().c_str(), verbose, threads, abs_p, inc, better);
    } else {
        std::vector< std::vector<int64_t> > mm; std::vector<ZZ> vz; std::vector<int64_t> vi;
        for(long i = 0; i < m.length(); i++) {
            std::vector<int64_t> t; for(long j = 0; j < m[i].length(); j++) t.push_back(m[i][j]);
            mm.push_back(t);
        }
        for(long i = 0; i < v.length(); i++) { vz.push_back(v[i]); if(via == "vecint") vi.push_back(conv<long>(v[i])); }
        if(via == "vecint") zeta_function(z, F, mm, vi, p, verbose, threads, abs_p, inc, better);
        else zeta_function(z, F, mm, vz, p, verbose, threads, abs_p, inc, better);
    }
}
// zeta: p mon coef [threads abs inc better via seed repeat preset]
// preset=P,N puts the caller's own NTL moduli in place first and reports them afterwards
CMD(zeta) {
    if(c.has("seed")) SetSeed(c.z("seed"));
    std::string via = c.has("via") ? c.str("via") : "map";
    bool preset = c.has("mod_p");
    if(preset) { zz_p::init(c.i("mod_p")); ZZ_p::init(c.z("mod_N")); }
    int64_t rep = c.i("repeat", 1);
    for(int64_t r = 0; r < rep; r++) {
        ZZX z; Mat<ZZ> F;
        if(c.has("dirty")) { SetCoeff(z, 77, 5); F.SetDims(3, 2); }
        run_zeta(c, z, F, via);
        std::string s = r ? std::to_string(r) : "";
        out(c, "zeta" + s, z.rep); out(c, "frob" + s, F);
    }
    if(preset) { out(c, "after_p", zz_p::modulus()); out(c, "after_N", ZZ_p::modulus());
        // the caller's own elements still behave modulo its modulus
        zz_p x; x = 1; x = -x; out(c, "minus1_p", x); ZZ_p y; y = 1; y = -y; out(c, "minus1_N", y); }
}
