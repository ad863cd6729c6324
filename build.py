"""Builds the simulator binaries from /repo's working tree into /verif/build (keyed by a hash of every input)."""
import hashlib, os, subprocess, sys, glob, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(V, "build")
REDEF = """malloc calloc realloc reallocarray free aligned_alloc posix_memalign strdup strndup
CRYPTO_malloc CRYPTO_zalloc CRYPTO_free CRYPTO_clear_free BN_new BN_CTX_new BN_free BN_clear_free BN_CTX_free BN_dup BN_bin2bn BN_secure_new
time clock gettimeofday clock_gettime srand rand rand_r random srandom getrandom RAND_bytes
fopen fdopen tmpfile freopen fclose fileno open creat read write pread pwrite lseek close fstat stat access remove unlink rename
ftruncate truncate fsync mkstemp chmod mkdir printf puts putchar perror abort exit __assert_fail __stack_chk_fail
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once pthread_create
pthread_join pthread_self sched_yield fopen64 open64 fdatasync lseek64""".split()
CFLAGS = ["-std=c99", "-fcommon", "-fopenmp", "-w", "-D_FORTIFY_SOURCE=0", "-U_FORTIFY_SOURCE", "-fno-builtin-printf"]
VAR = {
    "A": dict(c=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], x=["-O1", "-g1", "-fsanitize=address"], extra=[]),
    "B": dict(c=["-O3"], x=["-O2"], extra=[]),
    "T": dict(c=["-O1", "-fsanitize=thread", "-fno-builtin"], x=["-O2"], extra=["memcpy", "memset"]),
}
def sources():
    s = sorted(glob.glob(REPO + "/WBMatrix/src/*.c") + glob.glob(REPO + "/src/*/*.c") + glob.glob(REPO + "/src/*.c"))
    return s
def inputs():
    f = []
    for d in ("WBMatrix", "src", "include", "udf"):
        for r, _, n in os.walk(os.path.join(REPO, d)):
            f += [os.path.join(r, x) for x in n if x.endswith((".c", ".h", ".inc", ".cpp", ".hpp"))]
    return sorted(f)
def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
def key(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]
def udf_objects(v, redef, incs):
    """The MySQL functions, over a stand-in for mysql.h; their three entry points are renamed per version, everything else is made local."""
    r = []
    for n in ("5", "8"):
        s = REPO + "/udf/mysql%s.cpp" % n; o = "%s/udf%s-%s-%d.o" % (BUILD, n, v, os.getpid())
        if not os.path.exists(s): continue
        try:
            sh(["g++", "-w", "-fpermissive", "-fno-exceptions", "-D_FORTIFY_SOURCE=0", "-U_FORTIFY_SOURCE"] + VAR[v]["c"] + incs + (["-I/usr/include/mysql"] if n == "8" else []) + ["-I" + V + "/sim/stub", "-c", s, "-o", o])
            names = ["fpe", "fpe_init", "fpe_deinit"]; a = list(redef)
            for x in names: a += ["--redefine-sym", "%s=udf%s_%s" % (x, n, x)]
            sh(["objcopy"] + a + [o])
            a = []
            for x in names: a += ["--keep-global-symbol", "udf%s_%s" % (n, x)]
            sh(["objcopy"] + a + [o]); r.append(o)
        except RuntimeError as e:      # only P21 needs these objects
            sys.stderr.write(str(e))
    return r
def build(variants):
    """Returns {variant: binary}. Safe to call concurrently."""
    os.makedirs(BUILD, exist_ok=True)
    simsrc = sorted(glob.glob(V + "/sim/*.cpp")); simhdr = sorted(glob.glob(V + "/sim/*.h") + glob.glob(V + "/sim/stub/*.h"))
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rk = key(inputs(), repr((CFLAGS, VAR, REDEF)))
        hk = key([p for p in inputs() if p.endswith(".h")] + simhdr, repr(VAR))
        jobs, objs = [], {}
        os.makedirs(BUILD + "/obj", exist_ok=True)
        incs = ["-I" + REPO + "/include", "-I" + REPO + "/WBMatrix/include"]
        out = {v: BUILD + "/sim-%s-%s" % (v, key(simsrc + simhdr, rk)) for v in variants}
        todo = [v for v in variants if not os.path.exists(out[v])]
        if todo:
            rh = key([p for p in inputs() if not p.endswith(".c")], repr((CFLAGS, VAR)))
            for v in todo:
                objs[v] = ([], [])
                for s in sources():
                    big = sum(1 for _ in open(s, errors="replace")) > 20000
                    fl = ["-O0"] + [f for f in VAR[v]["c"] if not f.startswith("-O")] if big else VAR[v]["c"]
                    o = "%s/obj/r-%s-%s.o" % (BUILD, v, key([s], rh + repr(fl)))
                    objs[v][0].append(o)
                    if not os.path.exists(o):
                        jobs.append((os.path.getsize(s), ["gcc"] + CFLAGS + fl + incs + ["-c", s, "-o", o + ".t%d" % os.getpid()], o))
                for s in simsrc:
                    o = "%s/obj/h-%s-%s.o" % (BUILD, v, key([s], hk))
                    objs[v][1].append(o)
                    if not os.path.exists(o):
                        jobs.append((10**7, ["g++", "-std=c++17", "-w", '-DVARIANT="%s"' % v] + VAR[v]["x"] + incs + ["-I" + V + "/sim", "-c", s, "-o", o + ".t%d" % os.getpid()], o))
            def run(j):
                sh(j[1]); os.rename(j[1][-1], j[2])
            with ThreadPoolExecutor(8) as ex: list(ex.map(run, sorted(jobs, key=lambda j: -j[0])))
            for v in todo:
                lib = "%s/lib-%s-%d.o" % (BUILD, v, os.getpid())
                sh(["ld", "-r", "-d", "-o", lib] + sorted(set(objs[v][0])))
                args = []
                for x in REDEF + VAR[v]["extra"]: args += ["--redefine-sym", "%s=sim_%s" % (x, x)]
                sh(["objcopy"] + args + [lib])
                t = out[v] + ".t%d" % os.getpid()
                udf = udf_objects(v, args, incs)
                sh(["g++"] + (["-fsanitize=address"] if v == "A" else []) + ["-o", t, lib] + udf + objs[v][1] + ["-lcrypto", "-lm", "-ldl"])
                os.rename(t, out[v])
                for f in [lib] + udf: os.unlink(f)
            # keep the cache small
            old = sorted(glob.glob(BUILD + "/sim-*") , key=os.path.getmtime)
            for o in old[:-12]: os.unlink(o)
            oo = sorted(glob.glob(BUILD + "/obj/*.o"), key=os.path.getmtime)
            for o in oo[:-900]: os.unlink(o)
        return out
if __name__ == "__main__":
    t = time.time(); print(build(sys.argv[1:] or list(VAR))); print("%.1fs" % (time.time() - t))
