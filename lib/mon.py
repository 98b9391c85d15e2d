"""Runs monitored executions of msolve and asks the reference checker about them."""
import os, subprocess, threading, queue, tempfile, shutil, json, time, signal, sys, hashlib, random
from concurrent.futures import ThreadPoolExecutor, as_completed
import build

class Oracle:
    """one reference-checker process; restarted when it is killed by its watchdog"""
    def __init__(self, path):
        self.path, self.p = path, None
    def ask(self, line, timeout=120):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
        killed = []
        def kill():
            killed.append(1)
            self.p.kill()
        t = threading.Timer(timeout, kill); t.start()
        try:
            self.p.stdin.write(line + "\n"); self.p.stdin.flush()
            r = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            r = ""
        finally:
            t.cancel()
        if not r:
            self.p.kill(); self.p.wait(); self.p = None
            return ("INC", "reference checker " + ("timed out" if killed else "died"), {})
        r = r.rstrip("\n")
        kind, _, rest = r.partition(" ")
        kv = {}
        for w in rest.split():
            if "=" in w:
                k, _, v = w.partition("=")
                kv[k] = v
        return (kind, rest, kv)
    def close(self):
        if self.p: self.p.kill(); self.p.wait()

class Run:
    __slots__ = ("rc", "out", "err", "timeout", "argv", "wall")

def execute(argv, env=None, timeout=60, cwd=None, mem_mb=4096, stdin=None, stack_mb=0):
    """run a process with a watchdog (inconclusive when it fires) and a memory cap"""
    e = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": "/tmp", "OMP_WAIT_POLICY": "passive", "GOMP_SPINCOUNT": "0"}
    e.update(env or {})
    def pre():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if stack_mb:
            try: resource.setrlimit(resource.RLIMIT_STACK, (stack_mb << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
            except (ValueError, OSError): pass
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    r = Run()
    r.argv = argv
    t0 = time.time()
    p = subprocess.Popen(argv, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre)
    r.timeout = False
    try:
        so, se = p.communicate(stdin.encode() if stdin is not None else None, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        so, se = p.communicate()
    r.rc = p.returncode
    r.out, r.err = so.decode("utf-8", "replace"), se.decode("utf-8", "replace")
    r.wall = time.time() - t0
    return r

# ---------------------------------------------------------------------------------------
class Verdict:
    """ok | bad | inc ; key identifies the failure for known-findings matching"""
    def __init__(self, kind, what="", key=None, feats=(), nontrivial=False, sample=None, sig=None, replay=None):
        self.kind, self.what, self.key = kind, what, key or what
        self.feats, self.nontrivial, self.sample, self.sig = feats, nontrivial, sample, sig
        self.replay = replay or {}

class Ctx:
    """per-worker context"""
    def __init__(self, chk, wid):
        self.chk, self.wid = chk, wid
        self.dir = os.path.join(chk.tmp, "w%d" % wid)
        os.makedirs(self.dir, exist_ok=True)
        self.oracle = Oracle(chk.oracle_path) if chk.oracle_path else None
        self.n = 0
    def path(self, name):
        return os.path.join(self.dir, name)
    def write(self, name, text):
        p = self.path(name)
        with open(p, "w", newline="") as f: f.write(text)
        return p
    def read(self, name):
        try:
            with open(self.path(name), errors="replace") as f: return f.read()
        except OSError:
            return None
    def msolve(self, args, infile="in.ms", outfile="out.ms", variant="plain", env=None, timeout=None, mem_mb=4096, seed=1, rm=True):
        e = {"VP_TIME": str(1000003 + seed)}
        e.update(env or {})
        if rm and outfile:
            try: os.unlink(self.path(outfile))
            except OSError: pass
        argv = [self.chk.bins[variant]["msolve"], "-f", infile] + (["-o", outfile] if outfile else []) + [str(a) for a in args]
        return execute(argv, env=e, timeout=timeout or self.chk.timeout, cwd=self.dir, mem_mb=mem_mb)

def describe_exit(r):
    if r.timeout: return "timeout"
    if r.rc < 0:
        try: return "killed by " + signal.Signals(-r.rc).name
        except ValueError: return "killed by signal %d" % -r.rc
    return "exit code %d" % r.rc

class Check:
    def __init__(self, pid, level="exploration", variants=("plain",), programs=("msolve",), oracle=True, rule="", workers=None, timeout=60):
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.workers = workers or int(os.environ.get("VP_WORKERS", "0")) or min(8, os.cpu_count() or 8)
        self.timeout = timeout
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.outdir = os.path.join(build.VERIF, "out", pid)
        self.oracle_path = None
        self.bins = {}
        try:
            ths = []
            errs = []
            def b(v):
                try: self.bins[v] = build.build(v, programs if not isinstance(programs, dict) else programs[v])
                except Exception as ex: errs.append(ex)
            build.prune()
            if oracle:
                def bo():
                    try: self.oracle_path = build.build_oracle()
                    except Exception as ex: errs.append(ex)
                t = threading.Thread(target=bo); t.start(); ths.append(t)
            for v in variants:
                t = threading.Thread(target=b, args=(v,)); t.start(); ths.append(t)
            for t in ths: t.join()
            if errs: raise errs[0]
        except BaseException:
            shutil.rmtree(self.tmp, ignore_errors=True)
            raise
        self.evals = 0
        self.inc = 0
        self.incs = {}
        self.feats = {}
        self.distinct = set()
        self.samples = []
        self.bad = []
        self.extra = {}
        self.known = []
        self.lock = threading.Lock()
        try:
            kf = json.load(open(os.path.join(build.VERIF, "known_findings.json")))
            self.known = [k for k in kf["findings"] if k["property"] == pid and k["status"] == "known"]
        except FileNotFoundError:
            pass
        self.known_hit = {}
        self.known_n = 0
        self.known_cap = None      # share of the executions a known finding may explain
    def rng(self, *salt):
        h = hashlib.sha256(repr((self.pid, self.seed) + salt).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))
    def thorough(self): return self.tier == "thorough"
    def scale(self, quick, thorough): return thorough if self.thorough() else quick

    def run(self, cases, judge, stop_after=int(os.environ.get("VP_STOP","3")), deadline=None):
        """cases: iterable of case objects; judge(ctx, case) -> Verdict (or list of)"""
        q = queue.Queue(maxsize=64)
        stop = threading.Event()
        fail = []
        def worker(w):
            try:
                ctx = Ctx(self, w)
            except Exception as ex:
                fail.append(ex); stop.set(); return
            try:
                while True:
                    c = q.get()
                    if c is None: return
                    if stop.is_set(): continue
                    try:
                        vs = judge(ctx, c)
                        if isinstance(vs, Verdict): vs = [vs]
                        if any(v.kind in ("bad", "hang") for v in vs):
                            # confirm on a second execution of the same case
                            vs2 = judge(ctx, c)
                            if isinstance(vs2, Verdict): vs2 = [vs2]
                            if not any(v.kind in ("bad", "hang") for v in vs2):
                                vs = [v if v.kind not in ("bad", "hang") or v.replay.get("sticky") else
                                      Verdict("inc", "not reproduced: " + v.what, feats=v.feats) for v in vs]
                            else:
                                vs = [v if v.kind != "hang" else Verdict("bad", v.what, v.key, v.feats, v.nontrivial, v.sample, v.sig, v.replay) for v in vs2]
                        for v in vs: self.record(v, c)
                        if len(self.bad) >= stop_after: stop.set()
                    except Exception as ex:
                        import traceback
                        fail.append((ex, traceback.format_exc())); stop.set()
            finally:
                if ctx.oracle: ctx.oracle.close()
        ths = [threading.Thread(target=worker, args=(i,), daemon=True) for i in range(self.workers)]
        for t in ths: t.start()
        t1 = time.time()
        deadline = deadline or self.scale(200, 2400)
        for c in cases:
            if stop.is_set(): break
            if time.time() - t1 > deadline:
                self.extra["stopped_at_deadline_s"] = deadline
                break
            while not stop.is_set():
                try: q.put(c, timeout=1); break
                except queue.Full: pass
        for _ in ths:
            while True:
                try: q.put(None, timeout=1); break
                except queue.Full:
                    if not any(t.is_alive() for t in ths): break
        for t in ths: t.join()
        if fail and not self.bad:
            f = fail[0]
            print(f[1] if isinstance(f, tuple) else f, file=sys.stderr)
            self.cleanup()
            print("ERROR: the check's own machinery failed", file=sys.stderr)
            sys.exit(2)

    def record(self, v, case=None):
        with self.lock:
            self.evals += 1
            for f in v.feats: self.feats[f] = self.feats.get(f, 0) + 1
            if v.kind == "inc":
                self.inc += 1
                w = v.what[:70]
                self.incs[w] = self.incs.get(w, 0) + 1
            elif v.nontrivial and v.sig is not None:
                self.distinct.add(v.sig)
            if v.kind == "ok" and v.sample and (len(self.samples) < 6 or (len(self.samples) < 40 and hash(str(v.sig)) % 97 == 0)):
                self.samples.append(v.sample)
            if v.kind == "bad":
                for k in self.known:
                    if k["key"] in v.key:
                        self.known_hit.setdefault(k["key"], v.what)
                        self.known_n += 1
                        self.known_last = (v, case)
                        return
                self.bad.append((v, case))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def save_replay(self, i, v):
        d = os.path.join(self.outdir, "violation-%d-%s" % (i, hashlib.sha256(v.what.encode()).hexdigest()[:8]))
        os.makedirs(d, exist_ok=True)
        for n, t in v.replay.items():
            if n in ("sticky",): continue
            with open(os.path.join(d, n), "w", newline="") as f: f.write(t if isinstance(t, str) else json.dumps(t))
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s\n%s\nkey: %s\nseed %d tier %s\n" % (self.pid, v.what, v.key, self.seed, self.tier))
        return d

    def finish(self, min_distinct=1, assumptions=(), extra=None):
        wall = time.time() - self.t0
        cov = dict(distinct_kinds=len(self.feats), evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples[:8] or ["none"], inconclusive=self.inc, inconclusive_reasons=self.incs,
                   observed={k: self.feats[k] for k in sorted(self.feats)},
                   known_findings=sorted(self.known_hit))
        cov.update(self.extra); cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed, level=self.level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(self.bad))
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in self.known:
            if k["key"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rc = 0
        if self.known_cap is not None and self.known_n > 5 + self.known_cap * self.evals:
            v, c = self.known_last
            v.what = "%d of %d executions fail the way of a known finding, far more than it explains; last: %s" % (self.known_n, self.evals, v.what)
            self.bad.append((v, c))
        if self.bad:
            shutil.rmtree(self.outdir, ignore_errors=True)
            for i, (v, c) in enumerate(self.bad[:int(os.environ.get("VP_SHOW", "5"))]):
                d = self.save_replay(i, v)
                print("  %s" % v.what)
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
            rc = 1
        elif len(self.distinct) < min_distinct:
            print("ERROR: only %d distinct non-trivial cases were decided (%d needed): nothing is claimed" % (len(self.distinct), min_distinct), file=sys.stderr)
            rc = 2
        print("%s: %d executions judged, %d distinct non-trivial, %d inconclusive, %d violations, %.1fs" % (self.pid, self.evals, len(self.distinct), self.inc, len(self.bad), wall))
        if self.inc: print("  inconclusive: " + json.dumps(self.incs)[:600])
        self.cleanup()
        sys.exit(rc)
