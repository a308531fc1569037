#include "crx.h"
#include <unistd.h>
#include <sys/resource.h>
#include <time.h>
#include <malloc.h>
static bool mute = false;
static std::map<std::string, Cmd> &table() { static std::map<std::string, Cmd> t; return t; }
Reg::Reg(const char *n, Cmd f) { table()[n] = f; }
static std::string current;
void out_raw(const Case &c, const std::string &key, std::string v) {
    if(mute) return;
    for(auto &ch : v) if(ch == '\n' || ch == '\t' || ch == '\r') ch = ' ';
    std::string s = "\n@@" + c.id + "\t" + key + "\t" + v + "\n";
    std::cout.flush(); fflush(stdout);
    size_t off = 0;
    while(off < s.size()) { ssize_t k = write(1, s.data() + off, s.size() - off); if(k <= 0) _exit(98); off += k; }
}
extern "C" void shim_report(char *buf, size_t n) __attribute__((weak));
int main(int argc, char **argv) {
    std::ios::sync_with_stdio(true);
    long cpu = argc > 1 ? atol(argv[1]) : 0; // CPU seconds allowed per case
    std::string line;
    // read the whole input first, so that nothing is lost if a case crashes
    std::vector<std::string> lines;
    while(std::getline(std::cin, line)) if(!line.empty()) lines.push_back(line);
    // NTL: the stream after the very first SetSeed of a process differs from the one after later calls with the same seed
    { zz_pPush a(7); random_zz_p(); ZZ_pPush b(ZZ(49)); random_ZZ_p(); RandomBnd(10); }
    for(auto &l : lines) {
        Case c; size_t pos = 0; int k = 0;
        while(pos <= l.size()) {
            size_t e = l.find('\t', pos); if(e == std::string::npos) e = l.size();
            std::string t = l.substr(pos, e - pos);
            if(k == 0) c.id = t; else if(k == 1) c.cmd = t;
            else { size_t q = t.find('='); c.kv[t.substr(0, q)] = t.substr(q + 1); }
            k++; pos = e + 1;
        }
        auto it = table().find(c.cmd);
        if(it == table().end()) { fprintf(stderr, "HARNESS: unknown command %s\n", c.cmd.c_str()); return 97; }
        if(cpu > 0) {
            struct rusage r; getrusage(RUSAGE_SELF, &r);
            long used = r.ru_utime.tv_sec + r.ru_stime.tv_sec;
            struct rlimit rl = { (rlim_t)(used + cpu + 1), (rlim_t)(used + cpu + 1) };
            // the soft limit is moved with every case; the hard one stays
            struct rlimit cur; getrlimit(RLIMIT_CPU, &cur); rl.rlim_max = cur.rlim_max;
            setrlimit(RLIMIT_CPU, &rl);
        }
        struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
        out_raw(c, ">", "");
        it->second(c);
        if(c.has("leak")) { // the same computation again and again; what the allocator has handed out after each one
            int64_t k = c.i("leak"); std::vector<size_t> held; held.reserve(k); mute = true;
            for(int64_t q = 0; q < k; q++) { it->second(c); struct mallinfo2 m = mallinfo2(); held.push_back(m.uordblks + m.hblkhd);
                clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); if(c.has("leaksec") && b.tv_sec - a.tv_sec > c.i("leaksec") * (q >= 15 ? 1 : 2)) break; }
            mute = false; std::stringstream s; for(size_t x : held) s << x << " "; out_raw(c, "held", s.str());
        }
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
        if(shim_report) { char b[200]; shim_report(b, sizeof b); out_raw(c, "sched", b); }
        out_raw(c, ".", std::to_string((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec)));
    }
    return 0;
}
