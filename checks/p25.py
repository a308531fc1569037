import re, time
from vlib import build, run, poly as P, work
from vlib.verdict import Check
from vlib.reuse import Patched
BAD = re.compile(r"ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|Assertion '__n < this->size\(\)'[^\n]*|Assertion '!?this->[^\n]*|index out of range[^\n]*|stl_[a-z]*\.h:\d+:[^\n]*Assertion[^\n]*|/debug/[a-z_]*\.h[^\n]*:\s*\n?Error: [^\n]*|Error: attempt to [^\n]*|DEADLYSIGNAL")
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (?:%s/)?([\w./]+:\d+)" % re.escape(build.REPO))
VG = re.compile(r"==\d+== (Conditional jump or move depends on uninitialised[^\n]*|Use of uninitialised value[^\n]*|Invalid (?:read|write) of size[^\n]*|Invalid free[^\n]*|Mismatched free[^\n]*|Syscall param[^\n]*uninitialised[^\n]*|Source and destination overlap[^\n]*)((?:\n==\d+==    [^\n]*)*)")
MODULES = ["P01", "P02", "P03", "P04", "P05", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24"]
class Instrumented(Patched):
    """the workload of another property on the instrumented binaries; its own oracle's verdict is left to its own check"""
    def execute(self, go, binary, cases, k):
        e = dict(ENV); e.update(k.get("env") or {}); k["env"] = e; res = go(binary, cases, **k)
        for c in cases:
            z = res.get(c[0]); self.ck.observe((self.pid, c[1], c[0], self.variant)); self.ck.count("command " + c[1])
            if z is None or z.ok: continue
            self.ck.count("ended by a refusal or fault"); report(self.ck, z.err, c, self.pid)
        return res
class Memchecked(Patched):
    """the same under valgrind memcheck: sees what the other libraries read and write"""
    def execute(self, go, binary, cases, k):
        left = [c for c in cases if sum(len(str(v)) for v in c[2].values()) > 1200]; cases = [c for c in cases if c not in left]   # the larger ones take too long here
        k = dict(k); k.pop("cost", None); k.update(chunk=len(cases) // 8 + 1, ordered=False, keep_err=True, pre=VALGRIND); res = go(binary, cases, **k)
        for c in cases: self.ck.observe(("vg", self.pid, c[1], c[0])); self.ck.count("under memcheck: " + c[1])
        for e in res.pop("__stderr__"): valgrind_report(self.ck, e, cases[:20])
        for c in left: res[c[0]] = run.R()
        return res
VALGRIND = ["valgrind", "-q", "--error-limit=no", "--track-origins=no", "--num-callers=25", "--fair-sched=try"]
def valgrind_report(ck, e, cs):
    for m in VG.finditer(e):
        st = re.findall(r"(?:at|by) 0x[0-9A-F]+: ([^\n]*)", m.group(2)); mine = [s for s in st if re.search(r"\(\w+\.(?:cc|h):\d+\)", s) and "crx_" not in s]
        if not mine: continue   # entirely inside a library, on its own data
        ck.violation(f"memcheck:{m.group(1)[:30]}@{mine[0].split('(')[0]}", f"{m.group(1)} (valgrind) in {' < '.join(mine[:4])}", cs, "\n".join("# " + l for l in m.group(0).splitlines()))
def report(ck, err, c, pid):
    m = BAD.search(err or "")
    if not m: return False
    fr = [f"{a.split('(')[0]} {b}" for a, b in FRAME.findall(err) if "/usr/" not in b and "harness" not in b][:4]; kind = re.sub(r"0x[0-9a-f]+|\d+", "#", m.group(0))[:100]
    ck.violation(f"{kind}@{fr[0].split()[0] if fr else c[1]}", f"{m.group(0)[:300]} in the workload of {pid}, command {c[1]}: {' < '.join(fr)}", [c], "\n".join("# " + l for l in err[-6000:].splitlines())); return True
ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:detect_invalid_pointer_pairs=0:abort_on_error=1:handle_abort=0", "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1"}
def sanitized(ck):
    build.build("asan", ["zeta", "core", "lin", "prod", "tools", "cli"])
    for pid in MODULES:
        t = time.time(); f = ck.scale(.05, .6) if pid not in ("P11", "P14", "P16", "P17", "P18", "P19", "P20", "P24") else ck.scale({"P24": .3, "P14": .3}.get(pid, .12), 1)
        p = Instrumented(ck, pid, f, "asan", ck.scale(5, 60)); p.main()
        for k, v in p.current.viol.items():
            if BAD.search(v["text"] + v["extra"]): report(ck, v["text"] + v["extra"], ("?", k, {}), pid)
        ck.extra.setdefault("seconds per workload", {})[pid] = round(time.time() - t, 1)
def memcheck(ck):
    """uninitialised values: small cases of every command under valgrind"""
    B = build.build("vg", ["zeta", "core", "lin", "prod", "tools"]); r = ck.rng; jobs = []
    import concurrent.futures as cf
    x3 = work.curves(r, ck.scale(6, 40), 3, [5, 7, 11, 19]); x4 = work.curves(r, ck.scale(1, 6), 4, [3, 5, 7])
    for i, x in enumerate(x3 + x4):
        nd = x["nd"]; k = dict(p=x["p"], **P.fkv(x["f"])); cls = "ND" if nd and i % 3 else "J"; cs = [run.case(f"z{i}", "zeta", seed=1, threads=1 + i % 2, better=i % 2, **k)]
        if x["p"] > 17: cs.append(run.case(f"a{i}", "zeta", seed=1, abs=2, inc=i % 2, **k))
        jobs.append(("zeta", cs)); cs = []
        if x["d"] == 3:
            cs.append(run.case(f"f{i}", "frob", N="[1 2]", prec=5, cls=cls, methods="J Jc JZ0 JZ1 JZ2 Jp0 Jp1 Jp2" + (" ND NF NDc NZ0 NZ1 NZ2 Np0 Np1" if cls == "ND" else ""), ctor=r.choice(["mapZ", "mapz", "vecZ", "vecz"]), **k))
            cs.append(run.case(f"w{i}", "walks", seed=i, trials=2, maxm=2, cls=cls, prec=4, **k)); cs.append(run.case(f"s{i}", "smooth", nd=1, **k)); cs.append(run.case(f"v{i}", "fcov", seed=3, tries=20, **k))
            cs.append(run.case(f"c{i}", "coords", cls=cls, prec=3, us="[[1 1 1] [2 2 2] [4 1 1]]", everything=i % 2, **k)); jobs.append(("core", cs))
    cs = []
    for i in range(ck.scale(10, 60)):
        a, b = r.randint(1, 6), r.randint(1, 6); p = r.choice([3, 7, 101]); T = [[r.randrange(-p ** 3, p ** 3) * r.randrange(2) for _ in range(b)] for _ in range(a)]
        cs.append(run.case(f"p{i}", "solve_p", p=p, rows=a, cols=b, T=P.mat(T), impl=r.choice(["ntl", "flint", "auto"]), dirty=i % 2)); cs.append(run.case(f"q{i}", "solve_padic", p=p, prec=4, rows=a, cols=b, T=P.mat(T), impl=r.choice(["ntl", "flint", "auto"]), dirty=i % 2)); cs.append(run.case(f"c{i}", "charpoly", M=P.mat([[r.randint(-99, 99) for _ in range(a)] for _ in range(a)])))
    jobs.append(("lin", cs)); cs = []
    for i in range(ck.scale(10, 60)):
        a, b = r.randint(1, 4), r.randint(1, 4); cs.append(run.case(f"v{i}", "conv_int", v=P.vec([r.randint(-2 ** 200, 2 ** 200) for _ in range(a)]))); cs.append(run.case(f"m{i}", "conv_mat", M=P.mat([[r.randint(-2 ** 99, 2 ** 99) for _ in range(a)] for _ in range(b)]), mod=7 ** 30, p=7, q=7))
    jobs.append(("prod", cs)); cs = []
    for n, d, p in [(2, 3, 5), (2, 4, 3), (3, 4, 7)]: cs.append(run.case(f"d{n}{d}{p}", "default_args", n=n, d=d, p=p))
    for i, x in enumerate(x3[:4]): cs.append(run.case(f"i{i}", "mapio", mod=343, p=7, **P.fkv(x["f"]))); cs.append(run.case(f"h{i}", "chvar", ring="ZZ_p", mod=343, M="[[1 2 3] [0 1 5] [2 0 1]]", **P.fkv(x["f"])))
    cs.append(run.case("n", "numbers", n=20, p=3, prec=9)); cs.append(run.case("t", "tuples", deg=4, nv=3)); cs.append(run.case("g", "picard", cp="[49 0 1]", p=7, dim=2)); jobs.append(("tools", cs))
    def go(j):
        b, cs = j; return b, cs, run.run(B[b], cs, cpu=3000, workers=1, chunk=len(cs), mem=0, ordered=True, retry=False, keep_err=True, pre=VALGRIND)
    with cf.ThreadPoolExecutor(8) as ex: out = list(ex.map(go, jobs))
    for b, cs, res in out:
        for c in cs:
            ck.observe(("vg", b, c[0])); ck.count("under memcheck: " + c[1])
            if not res[c[0]].ok: ck.violation("vg:" + c[1], f"{c[1]} ends with {res[c[0]].rc} under memcheck: {res[c[0]].err[-500:]}", [c])
        for e in res["__stderr__"]: valgrind_report(ck, e, cs)
    for pid, f in (("P11", .04), ("P15", .02), ("P16", .08), ("P17", .05), ("P18", .05), ("P20", .02), ("P21", .004)):
        t = time.time(); Memchecked(ck, pid, ck.scale(f, 10 * f), "vg", 1).main(); ck.extra["seconds per workload"]["memcheck " + pid] = round(time.time() - t, 1)
def main():
    ck = Check("P25", rule="the workloads of the other properties, scaled down and reseeded, executed with AddressSanitizer, UndefinedBehaviorSanitizer, checked containers of the C++ library and range checks of NTL, rejected inputs included; small cases of every command under valgrind memcheck for uninitialised values; nontrivial: every case executed to its end under instrumentation; distinct by case",
               assumptions=["NTL, FLINT and GMP themselves are not instrumented by the sanitizers (memcheck sees them)", "an error whose stack holds no frame of the library under test is not counted"])
    sanitized(ck); t = time.time(); memcheck(ck); ck.extra["seconds per workload"]["memcheck"] = round(time.time() - t, 1)
    ck.sample(f"seconds per workload: {ck.extra['seconds per workload']}")
    return ck.finish(need=ck.scale(800, 5000))
