"""Builds the library under test and the harness from the current working tree."""
import os, subprocess, hashlib, glob, concurrent.futures as cf, tempfile, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
LIBS = "-lntl -lmpfr -lgmpxx -lgmp -lflint -lm -lpthread".split()
SAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_DEBUG -DNTL_RANGE_CHECK".split()
VARIANTS = {  # compile flags of the library, flags of the link, openmp runtime
    "plain": (["-O2"], ["-fopenmp"], None),
    "sched": (["-O2"], [], "shim"),
    "asan": (SAN, ["-fopenmp", "-fsanitize=address,undefined"], None),
    "tsan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=thread".split(), ["-fsanitize=thread"], "shim"),
    "vg": (["-O1", "-g"], ["-fopenmp"], None),
    "vgt": (["-O1", "-g"], [], "shim"),
}
BINARIES = {"zeta": ["crx_zeta.cc"], "core": ["crx_core.cc"], "lin": ["crx_lin.cc"], "prod": ["crx_prod.cc"], "tools": ["crx_tools.cc"], "cli": []}  # cli: the program examples/frob.cc
class BuildError(Exception): pass
def _sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
def _read(p):
    with open(p, "rb") as f: return f.read()
def lib_sources():
    out = []
    for d in sorted(os.listdir(REPO)):
        if d in ("build", "examples", "test", "doc", "lib", ".git") or not os.path.isdir(os.path.join(REPO, d)): continue
        out += sorted(glob.glob(os.path.join(REPO, d, "*.cc")))
    return out
def _headers():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/*.h") + glob.glob(REPO + "/*/*.h")): h.update(f[len(REPO):].encode()); h.update(_read(f))
    return h.hexdigest()
def build(variant="plain", binaries=("zeta",), jobs=8):
    """returns {binary: path}"""
    cflags, lflags, omp = VARIANTS[variant]
    os.makedirs(BUILD + "/obj", exist_ok=True); os.makedirs(BUILD + "/bin", exist_ok=True)
    hh = _headers(); todo = []; objs = []
    def unit(src, flags, lib):
        k = hashlib.sha256(("|".join(flags) + "|" + variant + "|" + (hh if lib or "gomp" not in src else "")).encode() + src.replace(REPO, "").encode() + _read(src) + (b"" if lib else _read(HERE + "/harness/crx.h"))).hexdigest()[:32]
        o = f"{BUILD}/obj/{k}.o"
        if not os.path.exists(o): todo.append((src, flags, o))
        return o
    libo = [unit(s, ["-std=c++11", "-fopenmp", "-I" + REPO] + cflags, True) for s in lib_sources()]
    if not libo: raise BuildError("no sources under " + REPO)
    ho = {}
    hflags = ["-O1" if f == "-O2" else f for f in cflags]
    if variant in ("asan", "tsan"): pass
    for b in binaries:
        ho[b] = [unit(f"{HERE}/harness/{s}", ["-std=c++14", "-fopenmp", "-I" + REPO] + hflags, False) for s in (["crx_main.cc"] + BINARIES[b] if b != "cli" else [])]
        if b == "cli": ho[b] = [unit(f"{REPO}/examples/frob.cc", ["-std=c++11", "-fopenmp", "-I" + REPO] + cflags, True)]
    if omp == "shim": shim = unit(f"{HERE}/harness/gomp_shim.cc", ["-std=c++11"] + ([f for f in cflags if "san" not in f] if variant == "sched" else cflags), False)
    def comp(t):
        src, flags, o = t; tmp = o + f".{os.getpid()}.tmp"
        _sh(["g++"] + flags + ["-w", "-c", src, "-o", tmp]); os.rename(tmp, o)
    seen = {}
    for t in todo: seen[t[2]] = t
    # big units first
    units = sorted(seen.values(), key=lambda t: -os.path.getsize(t[0]))
    with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(comp, units))
    res = {}
    def link(b):
        os_ = ho[b] + libo + ([shim] if omp == "shim" else [])
        k = hashlib.sha256("|".join(os_ + lflags).encode()).hexdigest()[:32]; out = f"{BUILD}/bin/{b}-{variant}-{k}"
        if not os.path.exists(out):
            tmp = out + f".{os.getpid()}.tmp"; _sh(["g++"] + os_ + lflags + LIBS + ["-o", tmp]); os.rename(tmp, out)
        return b, out
    with cf.ThreadPoolExecutor(jobs) as ex:
        for b, o in ex.map(link, binaries): res[b] = o
    return res
def oracle():
    src = HERE + "/harness/oracle.cc"; k = hashlib.sha256(_read(src)).hexdigest()[:24]; out = f"{BUILD}/bin/oracle-{k}"
    os.makedirs(BUILD + "/bin", exist_ok=True)
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}.tmp"; _sh(["g++", "-O2", "-std=c++11", src, "-o", tmp]); os.rename(tmp, out)
    return out
def prune(limit=3 << 30):
    """keeps the cache bounded (development only: a check's own copy starts empty)"""
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(BUILD + "/*/*") if os.path.isfile(f)]
    tot = sum(x[1] for x in fs)
    for m, s, f in sorted(fs):
        if tot <= limit: break
        try: os.unlink(f)
        except OSError: pass
        tot -= s
