"""Builds harness binaries from /repo's current working tree. Everything lands in /verif/build (git-ignored), keyed by content."""
import hashlib, itertools, os, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.environ.get("VT_BUILD") or os.path.join(VERIF, "build")
REDEF = "exit _exit quick_exit abort __assert_fail err errx verr verrx warn warnx perror rand srand stderr malloc free calloc realloc posix_memalign aligned_alloc reallocarray strdup".split()
REDEF_CXX = "exit _exit quick_exit abort __assert_fail err errx warn warnx stderr free malloc=hkx_malloc posix_memalign=hkx_posix_memalign".split()   # hkx: tracked, never made to fail
LIBS = "-lblas -llapack -lgivaro -lgmpxx -lgmp -lm".split()
COMMON = ["-fopenmp", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fPIC", "-I" + REPO + "/src"]
C_STD = ["-std=gnu99"]; CXX_STD = ["-std=gnu++11"]
ASAN = ["-fsanitize=address", "-fsanitize=bounds,integer-divide-by-zero,null,signed-integer-overflow,shift,unreachable,vla-bound", "-fno-sanitize-recover=all"]
VARIANTS = {
    "asan": dict(c=["-O1", "-g1", "-ftrivial-auto-var-init=pattern"] + ASAN + ["-fsanitize-coverage=trace-pc"], cxx=["-O1", "-fsanitize=address"], link=["-fsanitize=address,undefined"], defs=["-DVT_ASAN"]),
    "sched": dict(c=["-O1", "-g1", "-fsanitize=thread"], cxx=["-O1"], link=[], defs=[]),
    "tools": dict(c=["-O1", "-g1", "-ftrivial-auto-var-init=pattern"] + ASAN, cxx=["-O1", "-fsanitize=address"], link=["-fsanitize=address,undefined", "-fopenmp"], defs=[]),
    "plain": dict(c=["-O2"], cxx=["-O1"], link=["-fopenmp"], defs=[]),
}
_hcache = {}
_serial = itertools.count()
def fhash(path):
    if path not in _hcache:
        with open(path, "rb") as f: _hcache[path] = hashlib.sha256(f.read()).hexdigest()
    return _hcache[path]
def headers(*dirs):
    hs = []
    for d in dirs:
        for pat in ("*.h", "*.hpp", "*.inl", "*.inc"):
            hs += glob.glob(os.path.join(d, "**", pat), recursive=True)
    return sorted(h for h in hs if "/_build/" not in h)
def key(*parts): return hashlib.sha256("\0".join(parts).encode()).hexdigest()[:24]
class BuildError(Exception): pass
def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
def atomic(out, make):
    if os.path.exists(out): os.utime(out); return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.tmp%d-%d" % (out, os.getpid(), next(_serial))   # unique per call: several threads may build the same key
    make(tmp); os.rename(tmp, out); return out
def compile_(src, flags, hdrs, redefine=()):
    cxx = src.endswith(".cpp") or src.endswith(".cc")
    cmd = ["g++" if cxx else "gcc"] + flags
    k = key(fhash(src), os.path.basename(src), " ".join(cmd), " ".join(redefine), *[h + fhash(h) for h in hdrs])
    out = os.path.join(BUILD, "obj", k + ".o")
    def mk(tmp):
        sh(cmd + ["-c", src, "-o", tmp])
        if redefine: sh(["objcopy"] + [x for s in redefine for x in ("--redefine-sym", s if "=" in s else "%s=hk_%s" % (s, s))] + [tmp])
    return atomic(out, mk)
def lib_sources():
    return sorted(glob.glob(REPO + "/src/**/*.c", recursive=True) + glob.glob(REPO + "/src/**/*.cpp", recursive=True), key=lambda s: (not s.endswith(".cpp"), s))
def cpp_flags(s, v):   # the C++ part is built without -fopenmp, as CMake does
    return CXX_STD + [f for f in COMMON if f != "-fopenmp"] + v["cxx"]
def lib_jobs(variant, redefine=True):
    v = VARIANTS[variant]; hd = headers(REPO + "/src"); jobs = []
    for s in lib_sources():
        if s.endswith(".cpp"): jobs.append((s, cpp_flags(s, v), hd, tuple(REDEF_CXX) if redefine else ()))
        else: jobs.append((s, C_STD + COMMON + v["c"], hd, tuple(REDEF) if redefine else ()))
    return jobs
def harness_jobs(variant, files):
    v = VARIANTS[variant]; hd = headers(HERE, REPO + "/src")
    eng_hd = headers(HERE)
    fl = ["-std=c++17", "-O1", "-g1", "-Wall", "-Wno-unused-function", "-Wno-class-memaccess", "-fno-strict-aliasing", "-I" + HERE, "-I" + REPO + "/src"] + v["defs"]
    return [(os.path.join(HERE, f), fl, eng_hd if f == "engine.cpp" else hd, ()) for f in files]
def link(objs, flags, libs):
    cmd = ["g++"] + flags
    k = key(" ".join(cmd), " ".join(libs), *objs); out = os.path.join(BUILD, "bin", k)
    atomic(out, lambda tmp: sh(cmd + objs + ["-o", tmp] + libs)); return out
def run_jobs(jobs):
    # biggest translation units first
    with ThreadPoolExecutor(max_workers=max(2, min(16, os.cpu_count() or 4))) as ex:
        return list(ex.map(lambda j: compile_(*j), jobs))
def build_many(wants):
    """wants: list of ('bin', variant, [check files]) or ('tools',). Returns list of paths / dicts."""
    alljobs = []; idx = []
    for w in wants:
        if w[0] == "bin":
            jobs = lib_jobs(w[1]) + harness_jobs(w[1], ["checks/" + f for f in w[2]] + ["engine.cpp", "rt/hooks.cpp", "rt/omp_shim.cpp"])
            idx.append((len(alljobs), len(jobs))); alljobs += jobs
        else:
            v = VARIANTS["tools"]; jobs = lib_jobs("tools", False)
            hd = headers(REPO + "/src", REPO + "/tools")
            ts = sorted(glob.glob(REPO + "/tools/**/*.c", recursive=True))
            for t in ts: jobs.append((t, C_STD + COMMON + ["-I" + REPO + "/tools"] + v["c"], hd, ()))
            idx.append((len(alljobs), len(jobs), ts)); alljobs += jobs
    order = sorted(range(len(alljobs)), key=lambda i: (0 if "ffpack" in alljobs[i][0] or (alljobs[i][0].startswith(REPO) and alljobs[i][0].endswith(".cpp")) else 1 if "/checks/" in alljobs[i][0] else 2))
    res = [None] * len(alljobs)
    with ThreadPoolExecutor(max_workers=max(2, min(16, os.cpu_count() or 4))) as ex:
        uniq = {}   # identical jobs (the library shared by several targets) are compiled once
        for i in order:
            j = (alljobs[i][0], tuple(alljobs[i][1]), tuple(alljobs[i][3]))
            if j not in uniq: uniq[j] = ex.submit(compile_, *alljobs[i])
        for i, j in enumerate(alljobs): res[i] = uniq[(j[0], tuple(j[1]), tuple(j[3]))].result()
    out = []
    for w, ix in zip(wants, idx):
        objs = res[ix[0]:ix[0] + ix[1]]
        if w[0] == "bin":
            fl = ["-no-pie"] + VARIANTS[w[1]]["link"]
            try: out.append(link(objs, fl, LIBS))
            except BuildError as e:
                if "GOMP" not in str(e) and "omp_" not in str(e): raise
                # an OpenMP entry point the shim does not know: let the real runtime provide the missing ones
                out.append(link(objs, fl, LIBS + ["-lgomp"]))
        else:
            ts = ix[2]; nl = len(objs) - len(ts); lib = objs[:nl]; tob = objs[nl:]
            mains, helpers = [], []
            for t, o in zip(ts, tob):
                nm = subprocess.run(["nm", o], stdout=subprocess.PIPE, text=True).stdout
                (mains if any(l.endswith(" T main") for l in nm.splitlines()) else helpers).append((t, o))
            def lk(t): return os.path.splitext(os.path.basename(t[0]))[0], link([t[1]] + [h[1] for h in helpers] + lib, VARIANTS["tools"]["link"], LIBS)
            with ThreadPoolExecutor(max_workers=8) as ex: out.append(dict(ex.map(lk, mains)))
    prune()
    return out
def prune(maxbytes=int(os.environ.get("VT_BUILD_MAX", 3 << 30))):
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try: st = os.stat(f); fs.append((st.st_mtime, st.st_size, f))
            except OSError: pass
    tot = sum(f[1] for f in fs)
    for m, s, f in sorted(fs):
        if tot <= maxbytes: break
        try: os.unlink(f); tot -= s
        except OSError: pass
