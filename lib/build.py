"""Builds instrumented variants of /repo's sources (never inside /repo).

Every variant is keyed by a hash of the source tree, the runtime objects and the
flags, so a check always decides the code that is in /repo's working tree now.
"""
import hashlib, os, subprocess, sys, shutil, fcntl, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

BASE_DEFS = {
    "HAVE_CONFIG_H": "1",
}

def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

CPU = cpu_flags()
HAS_AVX2 = "avx2" in CPU
HAS_AVX512 = all(f in CPU for f in ("avx512f", "avx512cd", "avx512vl", "avx512bw", "avx512dq"))

def simd(kind):
    """-> (compiler flags, config.h defines)"""
    fl, df = [], []
    if kind == "scalar":
        return ["-mno-avx"], []
    if kind in ("avx2", "native") and HAS_AVX2:
        fl += ["-mavx", "-mavx2"] + (["-mfma"] if "fma" in CPU else [])
        df += ["HAVE_AVX", "HAVE_AVX2"]
        for f, o in (("bmi1", "-mbmi"), ("bmi2", "-mbmi2"), ("adx", "-madx"), ("abm", "-mabm")):
            if f in CPU:
                fl.append(o)
    if kind == "native" and HAS_AVX512:
        fl += ["-mavx512f", "-mavx512cd", "-mavx512vl", "-mavx512bw", "-mavx512dq"]
        df += ["HAVE_AVX512_F", "HAVE_AVX512_CD", "HAVE_AVX512_VL", "HAVE_AVX512_BW", "HAVE_AVX512_DQ"]
    return fl, df

# name -> dict(cflags, ldflags, simd, openmp: 'gomp'|'shim', rt: runtime sources, targets)
VARIANTS = {
    "plain":  dict(cflags=["-O2", "-g1"], simd="native"),
    "scalar": dict(cflags=["-O2", "-g1"], simd="scalar"),
    "avx2":   dict(cflags=["-O2", "-g1"], simd="avx2"),
    # junk in every automatic variable the code forgets to initialise; assertions of libstdc off
    "junk":   dict(cflags=["-O2", "-g1", "-ftrivial-auto-var-init=pattern"], simd="native"),
    "asan":   dict(cflags=["-O1", "-g", "-fno-omit-frame-pointer",
                           "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute"],
                   ldflags=["-fsanitize=address,undefined"], simd="native"),
    "asan-scalar": dict(cflags=["-O1", "-g", "-fno-omit-frame-pointer",
                           "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute"],
                   ldflags=["-fsanitize=address,undefined"], simd="scalar"),
    "shim":   dict(cflags=["-O2", "-g1"], simd="native", openmp="shim"),
    "tsan":   dict(cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
                   ldflags=["-fsanitize=thread"], simd="scalar", openmp="shim"),
    "tsan-avx2": dict(cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
                   ldflags=["-fsanitize=thread"], simd="avx2", openmp="shim"),
    "cov":    dict(cflags=["-O1", "-g1", "--coverage"], ldflags=["--coverage"], simd="native"),
}

TUS = {
    "gb": "src/neogb/gb.c",
    "fglm": "src/fglm/fglm_core.c",
    "usolve": "src/usolve/usolve.c",
}

def src_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, "src")
    files = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in fs:
            if f.endswith((".c", ".h", ".cc", ".cpp", ".hpp", ".inc")):
                files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        h.update(open(f, "rb").read()); h.update(b"\0")
    for d in ("rt", "harness"):
        dd = os.path.join(VERIF, d)
        if os.path.isdir(dd):
            for f in sorted(os.listdir(dd)):
                h.update(f.encode())
                h.update(open(os.path.join(dd, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    h.update(repr(sorted(CPU)).encode())
    return h.hexdigest()[:16]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def write_config(d, defs):
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write('#define VERSION "vp"\n#define PACKAGE "msolve"\n#define PACKAGE_VERSION "vp"\n#define NUMBER_OF_CPUS 8\n')
        for x in ("HAVE_FLOOR HAVE_GETDELIM HAVE_GETTIMEOFDAY HAVE_INTTYPES_H HAVE_MALLOC HAVE_MEMMOVE HAVE_MEMSET HAVE_POW "
                  "HAVE_REALLOC HAVE_SQRT HAVE_STDINT_H HAVE_STDIO_H HAVE_STDLIB_H HAVE_STRCHR HAVE_STRINGS_H HAVE_STRING_H "
                  "HAVE_STRSTR HAVE_STRTOL HAVE_SYS_STAT_H HAVE_SYS_TIME_H HAVE_SYS_TYPES_H HAVE_UNISTD_H HAVE___BUILTIN_CLZL "
                  "HAVE___BUILTIN_CLZLL HAVE___BUILTIN_CONSTANT_P STDC_HEADERS HAVE_DLFCN_H").split():
            f.write("#define %s 1\n" % x)
        for x in defs:
            f.write("#define %s 1\n" % x)

def build(variant, programs=("msolve",)):
    """Build `programs` of a variant; returns {program: path}. Programs: 'msolve', or the
    name of a harness source in /verif/harness (without .c)."""
    v = VARIANTS[variant]
    key = src_hash()
    d = os.path.join(CACHE, key, variant)
    os.makedirs(d, exist_ok=True)
    out = {p: os.path.join(d, p) for p in programs}
    lock = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        todo = [p for p in programs if not os.path.exists(out[p])]
        if not todo:
            return out
        fl, df = simd(v["simd"])
        write_config(d, df)
        inc = ["-I" + d, "-I" + REPO, "-I" + os.path.join(REPO, "src", "msolve"),
               "-DHAVE_CONFIG_H=1", "-w"]
        cf = v["cflags"] + fl + ["-fopenmp"] + inc
        jobs = []   # (object, source, extra)
        for n, s in TUS.items():
            jobs.append((os.path.join(d, n + ".o"), os.path.join(REPO, s), []))
        for p in todo:
            if p == "msolve":
                jobs.append((os.path.join(d, "main.o"), os.path.join(REPO, "src/msolve/main.c"), []))
            else:
                src = os.path.join(VERIF, "harness", p + ".c")
                jobs.append((os.path.join(d, p + ".o"), src, []))
                if "LINK:libmsolve" in open(src).read(400):
                    jobs.append((os.path.join(d, "libmsolve.o"), os.path.join(REPO, "src/msolve/libmsolve.c"), []))
        rtsrc = ["rt_time.c"]
        if v.get("openmp") == "shim":
            rtsrc.append("gomp_shim.c")
        tsan = any("thread" in x for x in v["cflags"] if x.startswith("-fsanitize"))
        if tsan:
            rtsrc.append("rt_tsan.c")
        wrap = not any("-fsanitize" in x for x in v["cflags"])
        if wrap:
            rtsrc.append("rt_alloc.c")
        for r in rtsrc:
            jobs.append((os.path.join(d, r[:-2] + ".o"), os.path.join(VERIF, "rt", r), []))
        seen, procs = set(), []
        for o, s, ex in jobs:
            if o in seen or os.path.exists(o):
                continue
            seen.add(o)
            if s.startswith(os.path.join(VERIF, "rt")):   # the runtime is never instrumented
                fl1 = [x for x in cf if not x.startswith("-fsanitize") and not x.startswith("-fno-sanitize") and x != "--coverage"]
            else:
                fl1 = cf
            cmd = ["gcc", "-std=gnu11"] + fl1 + ex + ["-c", s, "-o", o + ".tmp"]
            if "--coverage" in fl1:
                cmd = ["gcc", "-std=gnu11"] + cf + ex + ["-c", s, "-o", o]
            procs.append((cmd, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)))
        err = None
        for cmd, o, p in procs:
            so, _ = p.communicate()
            if p.returncode:
                err = err or (cmd, so)
            elif os.path.exists(o + ".tmp"):
                os.rename(o + ".tmp", o)
        if err:
            raise BuildError("compile failed: %s\n%s" % (" ".join(err[0]), err[1][-6000:]))
        for p in todo:
            objs = [os.path.join(d, n + ".o") for n in TUS]
            if p == "msolve":
                objs.append(os.path.join(d, "main.o"))
            else:
                objs.append(os.path.join(d, p + ".o"))
                if "LINK:libmsolve" in open(os.path.join(VERIF, "harness", p + ".c")).read(400):
                    objs.append(os.path.join(d, "libmsolve.o"))
            objs += [os.path.join(d, r[:-2] + ".o") for r in rtsrc]
            ld = v.get("ldflags", [])
            omp = ["-fopenmp"] if v.get("openmp") != "shim" else ["-pthread"]
            if wrap: ld = ld + ["-Wl,--wrap=malloc,--wrap=realloc,--wrap=free"]
            if tsan: ld = ld + ["-Wl," + ",".join("--wrap=__tsan_" + x for x in
                ("read8", "atomic64_compare_exchange_strong", "atomic64_compare_exchange_val"))]
            run(["gcc"] + ld + objs + ["-o", out[p] + ".tmp"] + omp + ["-lflint", "-lmpfr", "-lgmp", "-lm"])
            os.rename(out[p] + ".tmp", out[p])
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

def prune(keep=3):
    """Drop the oldest cached trees (disk is limited)."""
    try:
        ks = [os.path.join(CACHE, k) for k in os.listdir(CACHE) if len(k) == 16]
    except OSError:
        return
    ks.sort(key=os.path.getmtime, reverse=True)
    for k in ks[keep:]:
        shutil.rmtree(k, ignore_errors=True)

def build_oracle():
    src = os.path.join(VERIF, "oracle", "oracle.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    d = os.path.join(CACHE, "oracle")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "oracle-" + h)
    lock = open(os.path.join(d, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            run(["g++", "-O2", "-std=c++17", "-w", src, "-o", out + ".tmp", "-lflint", "-lmpfr", "-lgmp"])
            os.rename(out + ".tmp", out)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return out

if __name__ == "__main__":
    prune()
    ths = []
    for v in sys.argv[1:]:
        if v == "oracle":
            print("oracle", build_oracle()); continue
        t0 = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t0))
