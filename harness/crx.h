// Harness around the public API of the library under test.
// One case per input line:  id \t cmd \t key=value \t key=value ...
// Results on stdout:        \n@@ id \t key \t value      (one line per result)
//                           \n@@ id \t . \t ok           (the case returned)
// Values use NTL's text syntax with the newlines replaced by blanks.
#ifndef CRX_H
#define CRX_H
#include "wrapper.h"
#include "dr.h"
#include "dr_nd.h"
#include "hypersurface.h"
#include "hypersurface_nd.h"
#include "tools.h"
#include "matrix.h"
#include <unistd.h>
#include <algorithm>
#include <flint/fmpz_vec.h>
#include <flint/nmod_vec.h>
#include "solve_system.h"
#include "vec_int64.h"
#include <sstream>
#include <string>
#include <map>
#include <functional>
#include <vector>
#include <NTL/ZZX.h>

typedef std::map< Vec<int64_t>, ZZ, vi64less > polyZZ;
typedef std::map< Vec<int64_t>, ZZ_p, vi64less > polyZp;
typedef std::map< Vec<int64_t>, zz_p, vi64less > polyzp;

struct Case {
    std::string id, cmd;
    std::map<std::string, std::string> kv;
    bool has(const char *k) const { return kv.count(k) > 0; }
    const std::string &str(const char *k) const {
        auto it = kv.find(k);
        if(it == kv.end()) { fprintf(stderr, "HARNESS: missing key %s\n", k); _exit(97); }
        return it->second;
    }
    int64_t i(const char *k) const { return atoll(str(k).c_str()); }
    int64_t i(const char *k, int64_t def) const { return has(k) ? atoll(kv.at(k).c_str()) : def; }
    template<class T> T get(const char *k) const { std::stringstream s(str(k)); T x; s >> x; if(s.fail()) { fprintf(stderr, "HARNESS: bad value for key %s\n", k); _exit(97);} return x; }
    ZZ z(const char *k) const { return get<ZZ>(k); }
};

void out_raw(const Case &c, const std::string &key, std::string v);
template<class T> void out(const Case &c, const std::string &key, const T &v) {
    std::stringstream s; s << v; out_raw(c, key, s.str());
}
inline void outb(const Case &c, const std::string &key, bool v) { out_raw(c, key, v ? "1" : "0"); }

// polynomials travel as mon=[[..]..] and coef=[..]
inline polyZZ get_poly(const Case &c, const char *mk = "mon", const char *ck = "coef") {
    Vec< Vec<int64_t> > m = c.get< Vec< Vec<int64_t> > >(mk);
    Vec<ZZ> v = c.get< Vec<ZZ> >(ck);
    polyZZ f;
    for(long i = 0; i < m.length(); i++) f[m[i]] = v[i];
    return f;
}
inline polyzp to_zp(const polyZZ &f) { polyzp g; for(auto &x : f) g[x.first] = conv<zz_p>(x.second); return g; }
inline polyZp to_Zp(const polyZZ &f) { polyZp g; for(auto &x : f) g[x.first] = conv<ZZ_p>(x.second); return g; }
template<class M> void out_poly(const Case &c, const std::string &key, const M &f) {
    std::stringstream a, b; a << "["; b << "[";
    for(auto &x : f) { a << x.first << " "; b << x.second << " "; }
    a << "]"; b << "]";
    out_raw(c, key + ".mon", a.str()); out_raw(c, key + ".coef", b.str());
}
typedef std::function<void(const Case &)> Cmd;
struct Reg { Reg(const char *name, Cmd f); };
#define CMD(name) static void cmd_##name(const Case &); static Reg reg_##name(#name, cmd_##name); static void cmd_##name(const Case &c)
#endif
