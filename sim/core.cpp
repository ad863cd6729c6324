// Plans, events, forked execution of simulated runs, search, minimisation, replay.
#include "core.h"
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <algorithm>
#include <sstream>
#include <unordered_set>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
#ifndef VARIANT
#define VARIANT "?"
#endif

Shared *S; u8 *S_data; const Plan *P; bool g_trace;
std::vector<Module> &modules() { static std::vector<Module> m; return m; }
const char *ctr_name[NCTR] = {
    "runs", "ops", "syscalls", "allocs", "steps", "switches", "forced_choices", "crashes", "restarts",
    "open_fail", "read_eio", "read_short", "read_eintr", "write_eio", "write_enospc", "write_short", "seek_fail", "close_eio", "unlink_fail",
    "crash_before_syscall", "crash_after_syscall", "crash_torn_write", "disk_full_sticky", "alloc_fail_one", "alloc_fail_rest", "tampered_file", "clock_jump", "preemption", "team_shrunk", "realloc_moved", "rename_fail", "fsync_fail"};

uint64_t mix64(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull) * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 29; z *= 0x94D049BB133111EBull; z ^= z >> 32; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 31;
    return z;
}
uint64_t fnv(const void *p, size_t n, uint64_t h) { const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
Bytes rbytes(uint64_t seed, size_t n, int shape) {
    Bytes b(n);
    if (shape == 1) return b;                                  // zeros
    if (shape == 2) { std::fill(b.begin(), b.end(), 0xff); return b; }
    Rng r(seed);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t x = r.next(); memcpy(&b[i], &x, 8); }
    if (i < n) { uint64_t x = r.next(); memcpy(&b[i], &x, n - i); }
    return b;
}
std::string hex(const Bytes &b, size_t max) {
    std::string s; char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", b[i]); s += t; }
    if (b.size() > max) s += "...";
    return s;
}
void ev(const char *fmt, ...) {
    char b[400]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n >= (int)sizeof b) n = sizeof b - 1;
    S->hash = fnv(b, (size_t)n, S->hash);
    if (++S->nev > 4000000) violate("no-termination", "more than 4000000 events in one run");
    if (g_trace) fprintf(stdout, "TRACE %s\n", b);
}
void evhash(const char *what, const void *p, size_t n) { ev("%s %zu %016llx", what, n, (unsigned long long)fnv(p, n)); }
void violate(const char *cls, const char *fmt, ...) {
    if (S->status != 2) {
        snprintf(S->vclass, sizeof S->vclass, "%s", cls);
        va_list ap; va_start(ap, fmt); vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); va_end(ap);
        S->status = 2;
    }
    if (g_trace) fflush(stdout);
    _exit(1);
}
void sig(uint64_t s) { if (S->nsig < 64) S->sigs[S->nsig++] = s; }

// ------------------------------------------------------------------ plan text
std::string plan_text(const Plan &p) {
    std::ostringstream o;
    o << "plan 1\nprop " << p.prop << "\nvariant " << p.variant << "\nseed " << p.seed << "\n";
    for (auto &e : p.env) o << "env " << e.first << " " << e.second << "\n";
    for (auto &x : p.ops) { o << "op " << x.name; for (auto &a : x.a) o << " " << a.first << "=" << a.second; o << "\n"; }
    for (auto &f : p.faults) o << "fault " << f.op << " " << f.dom << " " << f.n << " " << f.kind << " " << f.arg << "\n";
    for (auto &q : p.pre) o << "pre " << q.step << " " << q.to << "\n";
    return o.str();
}
bool plan_parse(const std::string &t, Plan &p) {
    std::istringstream in(t); std::string l;
    bool ok = false;
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream s(l); std::string k; s >> k;
        if (k == "plan") ok = true;
        else if (k == "prop") s >> p.prop;
        else if (k == "variant") s >> p.variant;
        else if (k == "seed") s >> p.seed;
        else if (k == "env") { std::string n; int64_t v; s >> n >> v; p.env[n] = v; }
        else if (k == "op") {
            Op o; s >> o.name; std::string a;
            while (s >> a) { size_t e = a.find('='); if (e == std::string::npos) return false; o.a.emplace_back(a.substr(0, e), strtoll(a.c_str() + e + 1, nullptr, 10)); }
            p.ops.push_back(o);
        } else if (k == "fault") { Fault f; s >> f.op >> f.dom >> f.n >> f.kind >> f.arg; p.faults.push_back(f); }
        else if (k == "pre") { Pre q; s >> q.step >> q.to; p.pre.push_back(q); }
        else return false;
    }
    return ok;
}

// ------------------------------------------------------------------ table pool
static u8 *const POOLBASE = (u8 *)0x200000000000ull;
static const size_t POOLSLOT = 12u << 20;
static PoolEntry g_pool[NKIND][POOLIDX];
static PoolEntry *g_poolx;   // shared result slot
static u8 *slot_base(int kind, int idx) { return POOLBASE + POOLSLOT * (size_t)(kind * POOLIDX + idx); }
bool in_pool(const void *p) { return (const u8 *)p >= POOLBASE && (const u8 *)p < POOLBASE + POOLSLOT * NKIND * POOLIDX; }
const PoolEntry &pool_get(int kind, int idx) { return g_pool[kind][(unsigned)idx % POOLIDX]; }
void pool_wipe(int kind, int idx) { u8 *b = slot_base(kind, (int)((unsigned)idx % POOLIDX)); size_t n = g_pool[kind][(unsigned)idx % POOLIDX].used; if (n) memset(b, 0xA5, n); }
static void limits(int64_t cpu = 40) {
    struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 20};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
}
static void pool_make(int kind, int idx) {
    idx = (unsigned)idx % POOLIDX;
    PoolEntry &e = g_pool[kind][idx];
    if (e.state) return;
    if (kind < KWBAES) { e.state = 1; return; }
    if (!g_poolx) g_poolx = (PoolEntry *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(g_poolx, 0, sizeof *g_poolx);
    u8 *b = slot_base(kind, idx);
    if (mmap(b, POOLSLOT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("pool mmap"); exit(78); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        limits();
        static Plan pp; pp.prop = "pool"; pp.env["clock"] = 1600000000 + 977 * (kind * 8 + idx); pp.env["fillseed"] = idx + 5; pp.env["randseed"] = idx * 7 + kind;
        P = &pp;
        memset((void *)S, 0, sizeof *S);
        sim_child_init(pp);
        g_arena = b; g_arena_end = b + POOLSLOT;
        lib_quiet([&] { pool_gen(kind, idx, *g_poolx); }, 64 << 10);
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_poolx->state == 1) {
        u8 *tmp = (u8 *)malloc(POOLSLOT);
        memcpy(tmp, b, POOLSLOT);
        if (mmap(b, POOLSLOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("pool mmap"); exit(78); }
        size_t n = POOLSLOT; while (n && !tmp[n - 1]) n--;
        memcpy(b, tmp, n);
        free(tmp);
        e = *g_poolx; e.used = n;
    } else e.state = 2;
}

// ------------------------------------------------------------------ one simulated run
struct Result { int status = 0; std::string cls, msg; uint64_t hash = 0, sched = 0; int64_t steps = 0; };
static Module *find_mod(const std::string &p) { for (auto &m : modules()) if (p == m.prop) return &m; return nullptr; }
static void shared_init() {
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S_data = (u8 *)mmap(nullptr, (size_t)MAXINO * INOSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || S_data == MAP_FAILED) { perror("mmap"); exit(78); }
}
#if defined(__SANITIZE_ADDRESS__)
static void asan_cb(const char *rep) {
    if (!S || S->status == 2) return;
    const char *a = strstr(rep, "AddressSanitizer: ");
    char kind[64] = "error";
    if (a) { a += 18; size_t n = strcspn(a, " \n:"); if (n > 60) n = 60; memcpy(kind, a, n); kind[n] = 0; }
    snprintf(S->vclass, sizeof S->vclass, "memory-%s", kind);
    std::string m; int lines = 0;
    const char *q = rep;
    while ((q = strstr(q, " in ")) && lines < 4) { q += 4; size_t n = strcspn(q, "\n"); if (n > 120) n = 120; m += std::string(q, n) + " | "; lines++; }
    snprintf(S->vmsg, sizeof S->vmsg, "AddressSanitizer %s at %s", kind, m.c_str());
    S->status = 2;
}
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=16:malloc_context_size=3:symbolize=1:print_summary=1:detect_odr_violation=0:alloc_dealloc_mismatch=0"; }
#endif
static Result run_plan(const Plan &p, bool trace = false) {
    Module *m = find_mod(p.prop);
    Result r;
    if (!m) { fprintf(stderr, "no module %s\n", p.prop.c_str()); exit(78); }
    bool poolfail = false;
    if (strchr(m->knobs, 'p'))
        for (auto &o : p.ops)
            for (const char *f : {"key", "key2"}) { int k = (int)o.get("kind", -1), i = (int)o.get(f); if (k >= 0 && k < NKIND) { pool_make(k, i); if (pool_get(k, i).state == 2) poolfail = true; } }
    memset((void *)S, 0, offsetof(Shared, sys));
    S->nhot = S->nasite = 0;
    memset((void *)S->sigs, 0, sizeof(Shared) - offsetof(Shared, sigs));
    S->hash = 1469598103934665603ull; S->schedhash = S->hash;
    if (poolfail) { r.status = 2; r.cls = "setup-failed"; r.msg = "generating the white-box tables of the workload fails or crashes"; r.hash = 1; return r; }
    P = &p;
    for (int inc = 0; inc < 40; inc++) {
        S->incarnation = inc;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(78); }
        if (pid == 0) {
            limits(p.e("cpu", 40));
            g_trace = trace;
            if (!trace) { FILE *f = freopen("/dev/null", "w", stderr); (void)f; }
#if defined(__SANITIZE_ADDRESS__)
            __asan_set_error_report_callback(asan_cb);
#endif
            sim_child_init(p);
            if (inc) { S->ctr[C_RESTART]++; ev("restart at op %d", S->resume_op); }
            m->exec(p, S->resume_op);
            lib_heap_check();
            S->status = 1;
            if (trace) fflush(stdout);
            _exit(0);
        }
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { S->simtime += 1; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == 1) break;
        if (S->status == 2) break;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { S->status = 2; strcpy(S->vclass, "hang"); snprintf(S->vmsg, sizeof S->vmsg, "no progress: CPU limit reached"); break; }
        if (WIFSIGNALED(st)) { S->status = 2; snprintf(S->vclass, sizeof S->vclass, "signal-%d", WTERMSIG(st)); snprintf(S->vmsg, sizeof S->vmsg, "the process died with signal %d", WTERMSIG(st)); break; }
        if (WEXITSTATUS(st) != 78 && WEXITSTATUS(st) != 99) { S->status = 2; strcpy(S->vclass, "process-exit"); snprintf(S->vmsg, sizeof S->vmsg, "a library call ended the process with exit status %d", WEXITSTATUS(st)); break; }
        fprintf(stderr, "harness error: run exit status %d (prop %s)\n%s", WEXITSTATUS(st), p.prop.c_str(), plan_text(p).c_str());
        exit(78);
    }
    if (S->status == 0 && S->ctr[C_CRASH] < 40) { S->status = 2; strcpy(S->vclass, "process-exit"); snprintf(S->vmsg, sizeof S->vmsg, "library calls ended the process with exit status 77"); }
    if (S->status == 0) { fprintf(stderr, "harness error: too many restarts\n%s", plan_text(p).c_str()); exit(78); }
    S->ctr[C_RUNS]++;
    r.status = S->status; r.hash = S->hash; r.sched = S->schedhash; r.steps = S->steps;
    if (r.status == 2) { r.cls = S->vclass; r.msg = S->vmsg; r.hash = fnv(S->vclass, strlen(S->vclass), r.hash); }
    return r;
}

// ------------------------------------------------------------------ fault and schedule placement
static const char *pick_kind(Rng &r, char type, bool crash, bool io, int64_t &arg) {
    arg = (int64_t)(r.next() >> 34);
    if (crash && (!io || r.chance(0.5))) {
        int k = (int)r.range(0, 2);
        if (k == 0) return "crash_b";
        if (k == 1 || type != 'w') return "crash_a";
        return "crash_t";
    }
    switch (type) {
        case 'o': return r.chance(0.5) ? "fail" : "enospc";
        case 'r': { int k = (int)r.range(0, 5); return k < 2 ? "eio" : k < 5 ? "short" : "eintr"; }
        case 'w': { int k = (int)r.range(0, 6); return k < 2 ? "eio" : k < 4 ? "enospc" : k < 5 ? "full" : "short"; }
        case 'c': return "eio";
        default: return "fail";
    }
}
struct Dry { std::vector<Shared::ASite> asite; std::vector<int> nsys, nalloc; std::vector<std::string> sys; int64_t steps; std::vector<int64_t> hot; };
static void place(const Module &m, Plan &p, const Dry &d, Rng &r) {
    bool F = strchr(m.knobs, 'f'), C = strchr(m.knobs, 'c'), A = strchr(m.knobs, 'a'), Sch = strchr(m.knobs, 's');
    int nop = (int)p.ops.size();
    if (F || C) {
        bool crash = C && (!F || r.chance(0.5)), io = F && (!crash || r.chance(0.6));
        std::vector<int> cand;
        for (int i = 0; i < nop; i++) if (d.nsys[i] && !p.ops[i].get("nofault")) cand.push_back(i);
        if (!cand.empty()) {
            int k = r.chance(0.6) ? 1 : (int)r.range(2, 4);
            for (int i = 0; i < k; i++) {
                int op = r.pick(cand);
                int n = d.nsys[op];
                int64_t at = r.chance(0.3) ? r.range(std::max(1, n - 6), n) : r.chance(0.3) ? r.range(1, std::min(n, 8)) : r.range(1, n);
                if (at > MAXSYS) at = r.range(1, MAXSYS);
                Fault f; f.op = op; f.dom = 's'; f.n = at;
                f.kind = pick_kind(r, d.sys[op][at - 1], crash, io, f.arg);
                p.faults.push_back(f);
            }
        }
    }
    if (A && (!(F || C) || r.chance(0.3))) {
        std::vector<int> cand;
        for (int i = 0; i < nop; i++) if (d.nalloc[i] && !p.ops[i].get("nofault")) cand.push_back(i);
        if (!cand.empty()) {
            int k = r.chance(0.7) ? 1 : (int)r.range(2, 3);
            for (int i = 0; i < k; i++) {
                int op = r.pick(cand);
                Fault f; f.op = op; f.dom = 'a';
                int n = d.nalloc[op];
                f.n = r.chance(0.35) ? r.range(1, std::min(n, 6)) : r.chance(0.2) ? r.range(std::max(1, n - 4), n) : r.range(1, n);
                if (!d.asite.empty() && r.chance(0.5)) {   // by allocating code place instead of by position
                    auto &a = r.pick(d.asite);
                    if (!p.ops[(size_t)a.op].get("nofault")) { f.op = a.op; f.n = a.n[r.range(0, 2)]; }
                }
                f.kind = r.chance(0.7) ? "null" : "nullall"; f.arg = 0;
                p.faults.push_back(f);
            }
        }
    }
    if (Sch && d.steps > 0) {
        p.env["fseed"] = (int64_t)(r.next() >> 8) + 1;
        int mode = (int)r.range(0, 9);
        if (!d.hot.empty() && r.chance(0.5)) {              // around a write to a process-wide variable
            p.env["fseed"] = 0; int k = r.chance(0.5) ? 1 : (int)r.range(2, 5);
            for (int i = 0; i < k; i++) p.pre.push_back(Pre{r.pick(d.hot) + (r.chance(0.7) ? r.range(0, 3) : r.range(4, 60)), r.range(0, 15)});
        } else if (mode < 4) {                                     // few preemptions anywhere
            int k = (int)r.range(1, 5);
            for (int i = 0; i < k; i++) p.pre.push_back(Pre{r.range(1, d.steps), r.range(0, 15)});
        } else if (mode < 7) {                              // many
            int k = (int)r.range(6, 80);
            for (int i = 0; i < k; i++) p.pre.push_back(Pre{r.range(1, d.steps), r.range(0, 15)});
        } else if (mode < 9) {                              // a burst: switch at every step of a window
            int64_t at = r.range(1, d.steps), n = r.range(10, 200), g = r.range(1, 3);
            for (int64_t i = 0; i < n; i++) p.pre.push_back(Pre{at + i * g, r.range(0, 15)});
        } else {                                            // periodic
            int64_t per = std::max<int64_t>(1, d.steps / r.range(20, 300)), off = r.range(0, per);
            for (int64_t s = off + 1; s < d.steps && p.pre.size() < 400; s += per) p.pre.push_back(Pre{s, r.range(0, 15)});
        }
        std::stable_sort(p.pre.begin(), p.pre.end(), [](const Pre &a, const Pre &b) { return a.step < b.step; });
    }
}
static Dry dry_of(const Plan &p) {
    Dry d; d.steps = S->steps; d.hot.assign(S->hot, S->hot + std::min(S->nhot, 512)); d.asite.assign(S->asite, S->asite + S->nasite);
    for (size_t i = 0; i < p.ops.size() && i < MAXOPS; i++) {
        d.nsys.push_back(S->nsys[i]); d.nalloc.push_back(S->nalloc[i]);
        d.sys.emplace_back(S->sys[i], std::min(S->nsys[i], (int)MAXSYS));
    }
    return d;
}

// ------------------------------------------------------------------ search
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Stats {
    int64_t ctr[NCTR] = {0}; int64_t runs = 0, faultfree = 0, faulted = 0, plans = 0, violations = 0; double simtime = 0;
    std::unordered_set<uint64_t> sigs, scheds, hashes; int64_t incarn = 0;
    std::map<std::string, int64_t> opkinds;
    void add(const Plan &p, const Result &r, bool faulty) {
        runs++; (faulty ? faulted : faultfree)++;
        for (int i = 0; i < NCTR; i++) ctr[i] += S->ctr[i];
        for (int i = 0; i < S->nsig; i++) sigs.insert(S->sigs[i]);
        scheds.insert(r.sched); hashes.insert(r.hash); incarn += S->incarnation + 1;
        for (auto &o : p.ops) opkinds[o.name]++;
        simtime += (double)(S->simtime - p.e("clock", 1700000000));
    }
};
static void gen_plan(const Module &m, uint64_t base, int64_t idx, Plan &p) {
    uint64_t seed = mix64(mix64(base, fnv(m.prop, strlen(m.prop))), (uint64_t)idx);
    p = Plan(); p.prop = m.prop; p.variant = VARIANT; p.seed = (int64_t)(seed >> 1);
    Rng r(seed);
    p.env["clock"] = r.chance(0.85) ? 1500000000 + r.range(0, 400000000) : r.range(0, 1) ? (int64_t)0xFFFFFFF0u + r.range(0, 31) : r.range(0, 3);
    p.env["clkstep"] = r.range(0, 2); p.env["clkseed"] = (int64_t)(r.next() >> 8);
    p.env["fillmode"] = r.chance(0.15) ? 0 : r.chance(0.15) ? 1 : 2; p.env["fillseed"] = (int64_t)(r.next() >> 8);
    p.env["randseed"] = (int64_t)(r.next() >> 8);
    p.env["bufsz"] = r.chance(0.4) ? 0 : r.chance(0.5) ? r.pick(std::vector<int64_t>{16, 64, 100, 128, 512}) : r.range(1, 300);
    p.env["idx"] = idx;
    m.gen(r, p);
    if (p.ops.size() > MAXOPS - 2) p.ops.resize(MAXOPS - 2);
}
static bool trivial(const Plan &p) { return p.faults.empty() && p.pre.empty(); }
static void write_file(const std::string &f, const std::string &t) { FILE *o = fopen(f.c_str(), "w"); if (!o) { perror(f.c_str()); exit(78); } fwrite(t.data(), 1, t.size(), o); fclose(o); }
static std::string one_line(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static std::string jstr(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((u8)c < 32) c = ' '; o += c; } return o + "\""; }

static int search(const Module &m, uint64_t base, int64_t from, int64_t step, int64_t to, double wall, const std::string &out, const std::string &dir, int tag, bool det) {
    Stats st; double t0 = now(); int fails = 0; bool cut = false;
    std::vector<std::string> samples, known; int64_t done = 0; int64_t mismatches = 0;
    std::set<std::string> failcls;
    for (int64_t i = from; i < to && !cut; i += step) {
        if (now() - t0 > wall) { cut = true; break; }
        Plan p; gen_plan(m, base, i, p);
        auto one = [&](const Plan &q) {
            Result r = run_plan(q);
            st.add(q, r, !trivial(q));
            if (det) { Result r2 = run_plan(q); if (r2.hash != r.hash || r2.sched != r.sched || r2.status != r.status) { mismatches++; fprintf(stderr, "NONDETERMINISM idx %lld\n%s", (long long)i, plan_text(q).c_str()); } }
            if (r.status == 2) {
                st.violations++;
                if (failcls.insert(r.cls).second || fails < 2) {
                    fails++;
                    std::ostringstream f; f << dir << "/fail-" << VARIANT << "-" << tag << "-" << fails << ".plan";
                    std::ostringstream t; t << "# class " << r.cls << "\n# msg " << one_line(r.msg) << "\n# hash " << std::hex << r.hash << "\n" << plan_text(q);
                    write_file(f.str(), t.str());
                }
            }
            return r;
        };
        Result r = one(p); st.plans++;
        if (samples.size() < 2) { std::string s; for (auto &o : p.ops) { s += o.name + " "; if (s.size() > 160) break; } samples.push_back(s); }
        done++;
        if (r.status == 2) { if (fails >= 4) break; continue; }
        Dry d = dry_of(p);
        bool any = strpbrk(m.knobs, "fcas") != nullptr && !p.e("nofan");
        if (any) {
            Rng pr(mix64((uint64_t)p.seed, 0xFA17));
            for (int k = 0; k < m.fan; k++) {
                Plan q = p; place(m, q, d, pr);
                if (trivial(q)) break;
                Result rr = one(q);
                if (rr.status == 2 && fails >= 4) break;
                if (now() - t0 > wall) { cut = true; break; }
            }
            if (fails >= 4) break;
        }
    }
    std::ostringstream o;
    o << "{\"variant\":\"" << VARIANT << "\",\"plans\":" << st.plans << ",\"runs\":" << st.runs << ",\"faultfree\":" << st.faultfree << ",\"faulted\":" << st.faulted
      << ",\"violations\":" << st.violations << ",\"fails\":" << fails << ",\"cut\":" << (cut ? "true" : "false") << ",\"mismatches\":" << mismatches
      << ",\"processes\":" << st.incarn << ",\"simtime\":" << (int64_t)st.simtime << ",\"wall\":" << now() - t0;
    o << ",\"ctr\":{"; bool first = true;
    for (int i = 0; i < NCTR; i++) if (st.ctr[i]) { char nm[32]; if (i < C_PROBE0) snprintf(nm, 32, "%s", ctr_name[i]); else snprintf(nm, 32, "probe%d", i - C_PROBE0); o << (first ? "" : ",") << "\"" << nm << "\":" << st.ctr[i]; first = false; }
    o << "},\"ops\":{"; first = true;
    for (auto &k : st.opkinds) { o << (first ? "" : ",") << "\"" << k.first << "\":" << k.second; first = false; }
    o << "},\"samples\":["; first = true;
    for (auto &s : samples) { o << (first ? "" : ",") << jstr(s); first = false; }
    auto dump = [&](const char *n, const std::unordered_set<uint64_t> &s) { o << ",\"" << n << "\":["; bool f = true; for (auto x : s) { o << (f ? "" : ",") << x; f = false; } o << "]"; };
    o << "]";
    dump("sigs", st.sigs); dump("scheds", st.scheds); dump("hashes", st.hashes);
    o << "}\n";
    write_file(out, o.str());
    return 0;
}

// ------------------------------------------------------------------ minimisation
static int minimise(const std::string &in, const std::string &out, double wall) {
    std::string t; { FILE *f = fopen(in.c_str(), "r"); if (!f) { perror("open"); return 78; } char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); }
    Plan p; if (!plan_parse(t, p)) { fprintf(stderr, "bad plan\n"); return 78; }
    Result r0 = run_plan(p);
    if (r0.status != 2) { fprintf(stderr, "plan does not fail\n"); return 3; }
    std::string cls = r0.cls; double t0 = now(); int evals = 0;
    auto fails = [&](const Plan &q) { if (now() - t0 > wall || evals > 3000) return false; evals++; Result r = run_plan(q); return r.status == 2 && r.cls == cls; };
    bool slow = cls == "hang" || p.e("nofan");
    auto drop_ops = [&](const Plan &q, size_t a, size_t n) {
        Plan x = q; x.ops.erase(x.ops.begin() + a, x.ops.begin() + a + n); x.faults.clear();
        for (auto f : q.faults) { if ((size_t)f.op >= a && (size_t)f.op < a + n) continue; if ((size_t)f.op >= a + n) f.op -= (int)n; x.faults.push_back(f); }
        return x;
    };
    for (int round = 0; round < 4 && !slow; round++) {
        size_t before = p.ops.size() * 1000 + p.faults.size() * 100 + p.pre.size();
        auto ddmin = [&](auto size, auto drop) {
            for (size_t n = std::max<size_t>(1, size() / 2); n >= 1; n /= 2) {
                for (size_t a = 0; a + n <= size();) { Plan q = drop(a, n); if (fails(q)) p = q; else a += n; }
                if (n == 1) break;
            }
        };
        if (!p.pre.empty()) { Plan q = p; q.pre.clear(); if (fails(q)) p = q; }
        if (!p.faults.empty()) { Plan q = p; q.faults.clear(); if (fails(q)) p = q; }
        ddmin([&] { return p.pre.size(); }, [&](size_t a, size_t n) { Plan q = p; q.pre.erase(q.pre.begin() + a, q.pre.begin() + a + n); return q; });
        ddmin([&] { return p.faults.size(); }, [&](size_t a, size_t n) { Plan q = p; q.faults.erase(q.faults.begin() + a, q.faults.begin() + a + n); return q; });
        ddmin([&] { return p.ops.size(); }, [&](size_t a, size_t n) { return drop_ops(p, a, n); });
        for (size_t i = 0; i < p.ops.size(); i++)
            for (size_t j = 0; j < p.ops[i].a.size(); j++) {
                std::string nm = p.ops[i].a[j].first; int64_t v = p.ops[i].a[j].second;
                if (nm.find("len") == std::string::npos || v <= 0) continue;
                std::vector<int64_t> tries = {0, 1, 16, 17, 33, v / 16 * 16, v / 2, v - 16, v - 1};
                for (auto tv : tries) if (tv >= 0 && tv < p.ops[i].a[j].second) { Plan q = p; q.ops[i].a[j].second = tv; if (fails(q)) { p = q; break; } }
            }
        for (auto &kv : std::map<std::string, int64_t>{{"fillmode", 0}, {"bufsz", 0}, {"clkstep", 0}, {"clock", 1700000000}, {"fseed", 0}})
            if (p.env.count(kv.first) && p.env[kv.first] != kv.second) { Plan q = p; q.env[kv.first] = kv.second; if (fails(q)) p = q; }
        if (before == p.ops.size() * 1000 + p.faults.size() * 100 + p.pre.size()) break;
    }
    Result r = run_plan(p);
    std::ostringstream o;
    o << "# violation of " << p.prop << "\n# class " << r.cls << "\n# msg " << one_line(r.msg) << "\n# hash " << std::hex << r.hash << std::dec << "\n# minimised with " << evals << " runs; replay: python3 /verif/check.py replay <this file>\n" << plan_text(p);
    write_file(out, o.str());
    printf("RESULT status=%d class=%s hash=%llx\nMSG %s\n", r.status, r.cls.c_str(), (unsigned long long)r.hash, one_line(r.msg).c_str());
    return 0;
}

int main(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    signal(SIGPIPE, SIG_IGN);
    shared_init();
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
    auto I = [&](const char *k, int64_t d) { return o.count(k) ? strtoll(o[k].c_str(), nullptr, 10) : d; };
    if (cmd == "search") {
        Module *m = find_mod(o["-p"]); if (!m) { fprintf(stderr, "no module\n"); return 78; }
        return search(*m, (uint64_t)I("-s", 1), I("-from", 0), I("-step", 1), I("-to", 100), (double)I("-wall", 60), o["-out"], o["-dir"], (int)I("-tag", 0), I("-det", 0));
    }
    if (cmd == "replay") {
        std::string t; FILE *f = fopen(o["-f"].c_str(), "r"); if (!f) { perror("open"); return 78; }
        char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
        Plan p; if (!plan_parse(t, p)) { fprintf(stderr, "bad plan\n"); return 78; }
        Result r = run_plan(p, I("-trace", 0));
        printf("RESULT status=%d class=%s hash=%llx\nMSG %s\n", r.status, r.cls.c_str(), (unsigned long long)r.hash, one_line(r.msg).c_str());
        fflush(stdout);
        return r.status == 2 ? 1 : 0;
    }
    if (cmd == "minimise") return minimise(o["-f"], o["-o"], (double)I("-wall", 60));
    if (cmd == "show") { Module *m = find_mod(o["-p"]); Plan p; gen_plan(*m, (uint64_t)I("-s", 1), I("-i", 0), p); printf("%s", plan_text(p).c_str()); return 0; }
    fprintf(stderr, "usage: simrun search|replay|minimise|show\n");
    return 78;
}
