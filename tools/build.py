"""Builds the simulator executables from the working tree of /repo (never from a copy of it)."""
import glob, hashlib, os, re, subprocess, sys, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMNN_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")

def cpu_flags():
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            return set(line.split(":", 1)[1].split())
    return set()

def native_arch():
    """The choice src/configure makes."""
    f = cpu_flags()
    a = []
    for name, flag in (("sse", "-msse"), ("sse2", "-msse2"), ("ssse3", "-mssse3"), ("avx", "-mavx"), ("avx2", "-mavx2"), ("avx512f", "-mavx512f")):
        if name in f:
            a = [flag]
    if "fma" in f and a and a[0] in ("-mavx", "-mavx2", "-mavx512f"):
        a.append("-mfma")
    return a

def variants():
    f = cpu_flags()
    nat = native_arch()
    TS = ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove", "-fno-tree-loop-distribute-patterns", "-DSUT_TSAN"]
    AS = ["-fsanitize=address", "-fno-omit-frame-pointer", "--param=asan-use-after-return=0"]
    v = {
        "sched-native": dict(arch=nat, opt=["-O2"], extra=TS, ts=True),
        "sched-sse": dict(arch=["-msse2"], opt=["-O2"], extra=TS, ts=True),
        "asan-native": dict(arch=nat, opt=["-O1"], extra=AS, asan=True),
        "asan-sse": dict(arch=["-msse2"], opt=["-O1"], extra=AS, asan=True),
        "plain-native": dict(arch=nat, opt=["-O3"], extra=[]),
        "sched-blas": dict(arch=nat, opt=["-O2"], extra=TS + ["-DUSE_CBLAS", "-I" + os.path.join(SIM, "blas")], ts=True, blas=True),
    }
    if "avx2" in f and "avx512f" in f:
        fma = ["-mfma"] if "fma" in f else []
        v["sched-avx2"] = dict(arch=["-mavx2"] + fma, opt=["-O2"], extra=TS, ts=True)
        v["plain-avx2"] = dict(arch=["-mavx2"] + fma, opt=["-O3"], extra=[])
    return v

REDEF = []
for n in ("dlopen", "dlsym", "dlclose", "dlerror", "atexit", "exit", "__assert_fail", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock",
          "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once") + tuple(dict.fromkeys(re.findall(r"sim_(zip_\w+)\(", open(os.path.join(SIM, "zipshim.cc")).read()))):
    REDEF += ["--redefine-sym", f"{n}=sim_{n}"]
REDEF_TS = []
for n in ("memcpy", "memset", "memmove"):
    REDEF_TS += ["--redefine-sym", f"{n}=sim_{n}"]

class BuildError(Exception):
    pass

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout

def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c"))) + sorted(glob.glob(os.path.join(REPO, "npy_array", "*.c")))

def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def headers():
    return glob.glob(os.path.join(REPO, "src", "*.h")) + glob.glob(os.path.join(REPO, "npy_array", "*.h"))

def build(names, quiet=True):
    """Returns {variant: executable}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    V = variants()
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "npy_array"), "-I" + SIM]
    hsrc = sorted(glob.glob(os.path.join(SIM, "*.cc")))
    hhdr = glob.glob(os.path.join(SIM, "*.h"))
    # the harness sees the library through its headers only
    hkey = file_hash(hsrc + hhdr + headers(), "h")
    hdir = os.path.join(BUILD, "harness-" + hkey)
    jobs = []
    pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
    hobjs = []
    cxx = ["g++", "-std=gnu++17", "-O2", "-g1", "-Wall", "-Wno-misleading-indentation", "-Wno-address-of-packed-member", "-fno-strict-aliasing", "-fno-omit-frame-pointer", "-fno-builtin-malloc"] + inc
    if not os.path.isdir(hdir):
        for d in glob.glob(os.path.join(BUILD, "harness-*")):
            shutil.rmtree(d)
        os.makedirs(hdir)
    for s in hsrc:
        o = os.path.join(hdir, os.path.basename(s)[:-3] + ".o")
        hobjs.append(o)
        if not os.path.exists(o):
            def job(s=s, o=o):
                run(cxx + ["-c", s, "-o", o + ".tmp"]); os.rename(o + ".tmp", o)
            jobs.append(pool.submit(job))
    out, link = {}, []
    for n in names:
        v = V[n]
        key = file_hash(sources() + headers() + [os.path.join(SIM, "sut_api.c"), os.path.join(SIM, "sut_api.h")] + glob.glob(os.path.join(SIM, "blas", "*")), repr((v, REDEF, REDEF_TS)))
        d = os.path.join(BUILD, n + "-" + key)
        if not os.path.isdir(d):
            for x in glob.glob(os.path.join(BUILD, n + "-*")):
                shutil.rmtree(x)
            os.makedirs(d)
        objs = []
        srcs = sources() + [os.path.join(SIM, "sut_api.c")]
        if v.get("blas"):
            srcs += [os.path.join(SIM, "blas", "cblas_stub.c")]
        for s in srcs:
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            objs.append(o)
            if os.path.exists(o):
                continue
            omp = [] if "/npy_array/" in s else ["-fopenmp"] + v["arch"]
            cmd = ["gcc", "-std=c99" if s.startswith(REPO) else "-std=gnu99", "-w", "-g1", f'-DSUT_VARIANT="{n}"'] + v["opt"] + omp + v["extra"] + inc + ["-c", s]
            def job(cmd=cmd, o=o, ts=v.get("ts")):
                run(cmd + ["-o", o + ".tmp"])
                run(["objcopy"] + REDEF + (REDEF_TS if ts else []) + [o + ".tmp"])
                os.rename(o + ".tmp", o)
            jobs.append(pool.submit(job))
        exe = os.path.join(d, "simnn-" + hkey)
        out[n] = exe
        link.append((n, v, objs, exe))
    for j in jobs:
        j.result()
    jobs = []
    for n, v, objs, exe in link:
        if os.path.exists(exe):
            continue
        def job(v=v, objs=objs, exe=exe):
            run(["g++", "-no-pie", "-rdynamic"] + (["-fsanitize=address"] if v.get("asan") else []) + hobjs + objs + ["-o", exe + ".tmp", "-lzip", "-lz", "-lm", "-ldl", "-lpthread"])
            os.rename(exe + ".tmp", exe)
        jobs.append(pool.submit(job))
    for j in jobs:
        j.result()
    pool.shutdown()
    return out

if __name__ == "__main__":
    try:
        for k, e in build(sys.argv[1:] or list(variants())).items():
            print(k, e)
    except BuildError as e:
        print(e); sys.exit(2)
