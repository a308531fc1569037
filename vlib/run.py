"""Runs harness cases in worker processes; a crash is attributed to the case being executed."""
import os, subprocess, threading, queue, tempfile, resource, signal, time
class HarnessError(Exception): pass
class Stuck(Exception):
    """a case that does not end, twice"""
    def __init__(self, c, r): super().__init__(c[0]); self.case = c; self.result = r
IDLE = 90   # seconds without any CPU use: deadlock
def cputime(pid):
    try:
        with open(f"/proc/{pid}/stat") as f: v = f.read().rsplit(")", 1)[1].split()
        return int(v[11]) + int(v[12]) + int(v[13]) + int(v[14])
    except (OSError, IndexError, ValueError): return None
def wait(p, wall):
    """like p.wait(wall); also gives up on a process that has stopped computing"""
    end = time.monotonic() + wall; last = None; since = time.monotonic(); step = .5
    while True:
        try: return p.wait(timeout=max(.01, min(step, end - time.monotonic())))
        except subprocess.TimeoutExpired: pass
        now = time.monotonic(); step = 3; t = cputime(p.pid)
        if t != last: last = t; since = now
        if now >= end or now - since > IDLE: raise subprocess.TimeoutExpired(p.args, wall)
DONE = 0
class R(dict):
    """results of one case: keys printed by the harness, plus status in {ok, crash, hang, lost}"""
    status = "lost"; cpu = 0.0; err = ""; rc = None
    @property
    def ok(self): return self.status == "ok"
def case(cid, cmd, **kv):
    return (cid, cmd, {k: v for k, v in kv.items() if v is not None})
def line(c):
    return "\t".join([c[0], c[1]] + [f"{k}={v}" for k, v in c[2].items()])
def _one(binary, cases, cpu, wall, env, mem, pre):
    """one process over the cases; returns results, index of the case that did not return (or None)"""
    with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as fout, tempfile.TemporaryFile() as ferr:
        fin.write(("\n".join(line(c) for c in cases) + "\n").encode()); fin.seek(0)
        def setup():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mem: resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
            os.setpgid(0, 0)
        e = dict(os.environ); e.update({"OMP_NUM_THREADS": "1"}); e.update(env or {})
        p = subprocess.Popen(list(pre) + [binary, str(int(cpu))], stdin=fin, stdout=fout, stderr=ferr, preexec_fn=setup, env=e)
        timed = False
        try: rc = wait(p, wall)
        except subprocess.TimeoutExpired:
            timed = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: p.kill()
            rc = p.wait()
        fout.seek(0); out = fout.read().decode("utf-8", "replace"); ferr.seek(0, 2); n = ferr.tell(); ferr.seek(max(0, n - 12000)); err = ferr.read().decode("utf-8", "replace")
    res = {}; cur = None
    for l in out.split("\n"):
        if not l.startswith("@@"): continue
        f = l[2:].split("\t", 2)
        if len(f) < 3: continue
        cid, k, v = f; r = res.setdefault(cid, R())
        if k == ">": cur = cid
        elif k == ".": r.status = "ok"; r.cpu = float(v); cur = None
        else: r[k] = v
    if rc == 97 or rc == 96: raise HarnessError(err[-2000:])
    bad = None
    if rc != 0 or timed:
        if cur is None:
            # died outside a case (at exit): report on the last case
            done = [c[0] for c in cases if c[0] in res and res[c[0]].status == "ok"]
            if not done or len(done) < len(cases): 
                if not done: raise HarnessError(f"process ended with {rc} before any case: {err[-1500:]}")
            cur = done[-1]
        r = res[cur]
        r.status = "hang" if timed or rc in (-signal.SIGXCPU, -signal.SIGKILL) else "crash"
        r.rc = rc; r.err = err + ("\n[stdout] " + out[-1500:] if "@@" not in out[-200:] else ""); r.timed = timed
        bad = [c[0] for c in cases].index(cur)
    else:
        for c in cases:
            if c[0] not in res: raise HarnessError("case without a result: " + c[0])
    return res, bad, err
def run(binary, cases, cpu=60, workers=8, env=None, mem=6000, wall=None, cost=None, chunk=None, retry=True, pre=(), keep_err=False, ordered=False):
    """cost(case) -> relative cost, for load balance. Returns {id: R}."""
    cases = list(cases)
    ids = set()
    for c in cases:
        assert c[0] not in ids, c[0]
        ids.add(c[0])
    cost = cost or (lambda c: 1)
    total = sum(cost(c) for c in cases) or 1
    target = total / (workers * 20) if chunk is None else None
    order = cases if ordered else sorted(cases, key=lambda c: -cost(c))
    chunks = []; cur = []; acc = 0
    for c in order:
        cur.append(c); acc += cost(c)
        if (chunk and len(cur) >= chunk) or (not chunk and acc >= target): chunks.append(cur); cur = []; acc = 0
    if cur: chunks.append(cur)
    q = queue.Queue(); [q.put(c) for c in chunks]
    res = {}; lock = threading.Lock(); confirm = threading.Lock(); errors = []; stderrs = []
    def work():
        while not errors:
            try: ch = q.get_nowait()
            except queue.Empty: return
            try:
                while ch:
                    w = wall or (cpu * 3 + 60) * (1 if len(ch) == 1 else 1 + len(ch) // 20) if cpu else 3000
                    r, bad, err = _one(binary, ch, cpu, w, env, mem, pre)
                    with lock:
                        res.update(r)
                        if keep_err and err.strip(): stderrs.append(err)
                    if bad is None: break
                    if retry and res[ch[bad][0]].status == "hang":
                        with confirm:  # once more, with a higher limit; a second failure ends the whole run
                            if errors: return
                            r2, _, _ = _one(binary, [ch[bad]], cpu * (2 if cpu <= 150 else 1.5) if cpu else 0, (cpu or 300) * 4 + 60, env, mem, pre)
                        if r2[ch[bad][0]].status == "hang": raise Stuck(ch[bad], r2[ch[bad][0]])
                        res[ch[bad][0]] = r2[ch[bad][0]]
                    ch = ch[bad + 1:]
            except Exception as e: errors.append(e); return
    ts = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errors: raise errors[0]
    if keep_err: res["__stderr__"] = stderrs
    if os.environ.get("VERIF_COSTLOG"):
        with open(os.environ["VERIF_COSTLOG"], "a") as f:
            for c in cases:
                if c[0] in res: f.write(f"{os.environ.get('COSTPID')}\t{c[1]}\t{cpu}\t{cost(c)}\t{res[c[0]].cpu}\t{res[c[0]].status}\n")
    global DONE; DONE += 1
    return res
