// Simulated environment: scheduler (coroutines, OpenMP and pthread runtime, memory-access yield points),
// allocator, clock, random source, disk and stdio. The repository's objects are linked against these
// functions (objcopy --redefine-sym), the harness itself is not.
#include "core.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <time.h>
#include <sys/time.h>
#include <unordered_map>
#include <memory>
#include <link.h>
#include <openssl/bn.h>
#include <openssl/crypto.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define ASAN 1
#else
#define ASAN 0
#endif

// ============================================================ coroutines and scheduler
struct WS { int64_t next, end, incr, chunk; bool up; uint64_t unext, uend, uincr, uchunk; int sect, nsect; bool single; void *copyp; int copyset; };
struct Team {
    int n = 1; int arrived = 0; int gen = 0;
    std::map<int, WS> ws; int done = 0;
    WS init; bool has_init = false;
};
struct Coro {
    ucontext_t uc; u8 *stk; size_t sz;
    std::function<void()> fn;
    bool done = false;
    std::function<bool()> ready;     // empty: runnable
    Team *team = nullptr; int tid = 0; int wsseq = 0;
    int op = 0; bool inlib = false;
    int id = 0;
    std::shared_ptr<std::vector<u8>> tls;   // thread-local variables of the simulated thread it belongs to
#if ASAN
    void *fake = nullptr;
#endif
};
static ucontext_t g_main;
#if ASAN
static void *g_mainfake; static const void *g_mainbot; static size_t g_mainsz;
#endif
static Coro *g_cur;
static std::vector<Coro *> g_live;
static bool g_multi;              // more than one runnable coroutine
static int g_nextid;
static size_t g_preidx;
static uint64_t g_fseed; static uint64_t g_fcount;
bool g_in_lib;
static int g_op;
static std::vector<std::pair<u8 *, size_t>> g_stkfree;
static const size_t STK = 8 << 20;
static const size_t STKBIG = 16 << 20;
static uint64_t g_fillseed; static int g_fillmode; static uint64_t g_fillctr;

static void fill(void *p, size_t n) {
    u8 *b = (u8 *)p;
    if (g_fillmode == 0) { memset(b, 0, n); return; }
    if (g_fillmode == 1) { memset(b, 0xff, n); return; }
    uint64_t x = mix64(g_fillseed, ++g_fillctr) | 1;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(b + i, &x, 8); }
    for (; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = (u8)x; }
}
static u8 *stk_get(size_t sz) {
    for (size_t i = 0; i < g_stkfree.size(); i++)
        if (g_stkfree[i].second == sz) { u8 *p = g_stkfree[i].first; g_stkfree.erase(g_stkfree.begin() + i); return p; }
    u8 *p = (u8 *)mmap(nullptr, sz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "mmap stack\n"); _exit(78); }
    mprotect(p, 4096, PROT_NONE);
    return p + 4096;
}
// Thread-local variables of the library: one block per simulated thread, swapped in and out with the coroutine. Library
// calls made by one simulated thread share its block.
static u8 *g_tls; static size_t g_tlsn; static const u8 *g_tlsimg; static size_t g_tlsimgn;
static void tls_init() {
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) -> int {
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
            g_tlsn = i->dlpi_phdr[k].p_memsz; g_tlsimg = (const u8 *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); g_tlsimgn = i->dlpi_phdr[k].p_filesz; g_tls = (u8 *)i->dlpi_tls_data;
        }
        return 1;                                   // the first object is the program itself
    }, nullptr);
    if (!g_tls) g_tlsn = 0;
}
static std::shared_ptr<std::vector<u8>> tls_new() {
    if (!g_tlsn) return nullptr;
    auto v = std::make_shared<std::vector<u8>>(g_tlsn);
    memcpy(v->data(), g_tlsimg, g_tlsimgn);
    return v;
}
static std::shared_ptr<std::vector<u8>> g_maintls;      // of the thread that makes the sequential calls
static void recount() {
    int n = 0;
    for (auto *c : g_live) if (!c->done && (!c->ready || c->ready())) n++;
    g_multi = n > 1;
}
static void to_main() {
    Coro *me = g_cur;
#if ASAN
    __sanitizer_start_switch_fiber(me->done ? nullptr : &me->fake, g_mainbot, g_mainsz);
#endif
    swapcontext(&me->uc, &g_main);
#if ASAN
    __sanitizer_finish_switch_fiber(me->fake, &g_mainbot, &g_mainsz);
#endif
}
static void tramp(unsigned lo, unsigned hi) {
    Coro *c = (Coro *)(((uint64_t)hi << 32) | lo);
#if ASAN
    __sanitizer_finish_switch_fiber(nullptr, &g_mainbot, &g_mainsz);
#endif
    c->fn();
    c->done = true;
    to_main();
    abort();
}
static Coro *spawn(std::function<void()> fn, size_t stackfill, size_t stksz) {
    Coro *c = new Coro;
    c->fn = std::move(fn);
    c->sz = stksz;
    c->stk = stk_get(stksz);
#if ASAN
    size_t up = std::min<size_t>(c->sz, 1 << 20); __asan_unpoison_memory_region(c->stk + c->sz - up, up);
#endif
    if (stackfill > stksz - 4096) stackfill = stksz - 4096;
    fill(c->stk + c->sz - stackfill, stackfill);
    c->id = g_nextid++;
    if (g_tlsn) c->tls = tls_new();
    getcontext(&c->uc);
    c->uc.uc_stack.ss_sp = c->stk;
    c->uc.uc_stack.ss_size = c->sz;
    c->uc.uc_link = nullptr;
    uint64_t a = (uint64_t)c;
    makecontext(&c->uc, (void (*)())tramp, 2, (unsigned)a, (unsigned)(a >> 32));
    g_live.push_back(c);
    return c;
}
static Coro *g_want;      // preemption target
static void sched_run(Coro *until) {   // runs on the main context
    while (!until->done) {
        Coro *pick = nullptr;
        if (g_want && !g_want->done && (!g_want->ready || g_want->ready())) pick = g_want;
        g_want = nullptr;
        if (!pick) {
            std::vector<Coro *> r;
            for (auto *c : g_live) if (!c->done && (!c->ready || c->ready())) r.push_back(c);
            if (r.empty()) violate("deadlock", "no runnable thread (op %d)", g_op);
            size_t k = 0;
            if (r.size() > 1) {
                S->ctr[C_FORCED]++;
                k = g_fseed ? mix64(g_fseed, ++g_fcount) % r.size() : 0;
                S->schedhash = fnv(&k, sizeof k, S->schedhash);
            }
            pick = r[k];
        }
        pick->ready = nullptr;
        g_cur = pick; g_op = pick->op; g_in_lib = pick->inlib;
        recount();
#if ASAN
        __sanitizer_start_switch_fiber(&g_mainfake, pick->stk, pick->sz);
#endif
        if (g_tlsn) memcpy(g_tls, pick->tls->data(), g_tlsn);
        swapcontext(&g_main, &pick->uc);
        if (g_tlsn) memcpy(pick->tls->data(), g_tls, g_tlsn);
#if ASAN
        __sanitizer_finish_switch_fiber(g_mainfake, nullptr, nullptr);
#endif
        g_cur = nullptr;
        pick->op = g_op; pick->inlib = g_in_lib;
        if (pick->done) {
            for (size_t i = 0; i < g_live.size(); i++) if (g_live[i] == pick) { g_live.erase(g_live.begin() + i); break; }
            g_stkfree.emplace_back(pick->stk, pick->sz);
            if (pick == until) { recount(); break; }
            // deleted lazily: others may hold the pointer in a ready predicate
        }
    }
}
static void block_until(std::function<bool()> pred) {
    while (!pred()) {
        g_cur->ready = pred;
        to_main();
    }
}
void sim_yield(int) {
    if (!g_cur || !g_multi) return;
    int64_t s = ++S->steps;
    S->ctr[C_STEPS]++;
    if (g_preidx < P->pre.size() && P->pre[g_preidx].step <= s) {
        int64_t to = P->pre[g_preidx].to;
        g_preidx++;
        std::vector<Coro *> r;
        for (auto *c : g_live) if (c != g_cur && !c->done && (!c->ready || c->ready())) r.push_back(c);
        if (r.empty()) return;
        g_want = r[(size_t)to % r.size()];
        S->ctr[F_PREEMPT]++; S->ctr[C_SWITCHES]++;
        uint64_t k = s * 31 + g_want->id; S->schedhash = fnv(&k, sizeof k, S->schedhash);
        to_main();
    }
}
static inline void Y() { if (g_multi) sim_yield(0); }
static void hot_write(void *a) {                      // per 8-byte word: the 1st to 4th write and every power of two
    static std::unordered_map<uint64_t, uint32_t> cnt;
    uint32_t c = ++cnt[(uint64_t)a >> 3];
    if ((c <= 4 || !(c & (c - 1))) && S->nhot < 512) S->hot[S->nhot++] = S->steps + 1;
}

static void lib_impl(const std::function<void()> &f, size_t sf, bool arm) {
    bool old = g_in_lib; int oldop = g_op;
    size_t sz = sf > (512 << 10) ? STKBIG : STK;
    auto body = [&f, arm] { g_in_lib = arm; f(); g_in_lib = false; };
    if (!g_cur) {
        Coro *c = spawn(body, sf, sz);
        c->op = oldop; c->inlib = arm;
        if (g_tlsn) { if (!g_maintls) g_maintls = tls_new(); c->tls = g_maintls; }
        sched_run(c);
    } else {
        Coro *c = spawn(body, sf, sz);
        c->op = oldop; c->inlib = arm; c->tid = 0; c->team = nullptr; c->tls = g_cur->tls;
        g_want = c;
        g_cur->ready = [c] { return c->done; };
        to_main();
        while (!c->done) { g_cur->ready = [c] { return c->done; }; to_main(); }
    }
    g_in_lib = old; g_op = oldop;
}
void lib(const std::function<void()> &f, size_t sf) { lib_impl(f, sf, true); }
void lib_quiet(const std::function<void()> &f, size_t sf) { lib_impl(f, sf, false); }
void run_concurrent(const std::vector<std::function<void()>> &fs, const std::vector<int> &ops) {
    std::vector<Coro *> cs;
    int left = (int)fs.size();
    for (size_t i = 0; i < fs.size(); i++) {
        auto f = fs[i];
        Coro *c = spawn([f, &left] { f(); left--; }, 16 << 10, STK);
        c->op = i < ops.size() ? ops[i] : 0;
        cs.push_back(c);
    }
    Coro *m = spawn([&left] { block_until([&left] { return left == 0; }); }, 4096, STK);
    sched_run(m);
}
int sim_cur_op() { return g_op; }
void sim_set_op(int op) { g_op = op; }

// ============================================================ OpenMP runtime
static int g_omp_n = 4, g_procs = 4;
static Team g_solo;
static Team *team() { return g_cur && g_cur->team ? g_cur->team : &g_solo; }
static void barrier() {
    Team *t = team();
    if (t->n <= 1) return;
    int g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; recount(); Y(); }
    else block_until([t, g] { return t->gen != g; });
}
static void parallel(void (*fn)(void *), void *data, unsigned nt, const WS *init) {
    int n = nt ? (int)nt : g_omp_n;
    int cap = (int)P->e("teamcap", 0);
    if (cap > 0 && n > cap) { n = cap; S->ctr[F_TEAM]++; }
    if (n < 1) n = 1;
    if (n > 64) n = 64;
    if (!g_cur) { fprintf(stderr, "parallel outside coroutine\n"); _exit(78); }
    Team *t = new Team; t->n = n;
    int startseq = 0;
    if (init) { t->ws[1] = *init; startseq = 1; }
    Team *ot = g_cur->team; int otid = g_cur->tid, ows = g_cur->wsseq;
    Coro *me = g_cur;
    int op = g_op; bool il = g_in_lib;
    for (int i = 1; i < n; i++) {
        Coro *c = spawn([=] { fn(data); t->done++; }, 8 << 10, STK);
        c->team = t; c->tid = i; c->op = op; c->inlib = il; c->wsseq = startseq;
    }
    me->team = t; me->tid = 0; me->wsseq = startseq;
    recount();
    Y();
    fn(data);
    t->done++;
    if (n > 1) block_until([t] { return t->done == t->n; });
    me->team = ot; me->tid = otid; me->wsseq = ows;
    recount();
}
static WS &ws_cur() { return team()->ws[g_cur->wsseq]; }
static WS &ws_enter(bool &fresh) {
    Team *t = team();
    if (t == &g_solo) { t->ws.clear(); }
    int s = ++g_cur->wsseq;
    fresh = !t->ws.count(s);
    WS &w = t->ws[s];
    if (fresh) memset(&w, 0, sizeof w);
    return w;
}
static bool ws_next(long *is, long *ie) {
    Y();
    WS &w = ws_cur();
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    int64_t ch = w.chunk > 0 ? w.chunk : 1;
    *is = w.next;
    int64_t e = w.next + ch * w.incr;
    if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
    *ie = e; w.next = e;
    return true;
}
static bool ws_unext(unsigned long long *is, unsigned long long *ie) {
    Y();
    WS &w = ws_cur();
    if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
    uint64_t ch = w.uchunk > 0 ? w.uchunk : 1;
    *is = w.unext;
    uint64_t e = w.unext + ch * w.uincr;
    if (w.up ? (e > w.uend || e < w.unext) : (e < w.uend || e > w.unext)) e = w.uend;
    *ie = e; w.unext = e;
    return true;
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned nt, unsigned) { parallel(fn, d, nt, nullptr); }
void GOMP_barrier(void) { barrier(); }
#define LOOPS(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { bool f; WS &w = ws_enter(f); if (f) { w.next = s; w.end = e; w.incr = i; w.chunk = c; } return ws_next(is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return ws_next(is, ie); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { bool f; WS &w = ws_enter(f); if (f) { w.up = up; w.unext = s; w.uend = e; w.uincr = i; w.uchunk = c; } return ws_unext(is, ie); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return ws_unext(is, ie); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = i; w.chunk = c; parallel(fn, d, nt, &w); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(ordered_static) LOOPS(ordered_dynamic)
#define LOOPS_RT(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { bool f; WS &w = ws_enter(f); if (f) { w.next = s; w.end = e; w.incr = i; w.chunk = 1; } return ws_next(is, ie); } \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return ws_next(is, ie); } \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { bool f; WS &w = ws_enter(f); if (f) { w.up = up; w.unext = s; w.uend = e; w.uincr = i; w.uchunk = 1; } return ws_unext(is, ie); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return ws_unext(is, ie); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { WS w; memset(&w, 0, sizeof w); w.next = s; w.end = e; w.incr = i; w.chunk = 1; parallel(fn, d, nt, &w); }
LOOPS_RT(runtime) LOOPS_RT(nonmonotonic_runtime) LOOPS_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_next(void) { Y(); WS &w = ws_cur(); return w.sect < w.nsect ? ++w.sect : 0; }
unsigned GOMP_sections_start(unsigned n) { bool f; WS &w = ws_enter(f); if (f) w.nsect = n; return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) { WS w; memset(&w, 0, sizeof w); w.nsect = n; parallel(fn, d, nt, &w); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
bool GOMP_single_start(void) { Y(); bool f; ws_enter(f); return f; }
void *GOMP_single_copy_start(void) {
    bool f; WS &w = ws_enter(f);
    if (f) return nullptr;
    WS *pw = &w; block_until([pw] { return pw->copyset != 0; });
    return w.copyp;
}
void GOMP_single_copy_end(void *p) { WS &w = ws_cur(); w.copyp = p; w.copyset = 1; recount(); barrier(); }
static int g_crit, g_atomic;
static void lk(int *l) { Y(); block_until([l] { return *l == 0; }); *l = 1; recount(); }
static void ulk(int *l) { *l = 0; recount(); Y(); }
void GOMP_critical_start(void) { lk(&g_crit); }
void GOMP_critical_end(void) { ulk(&g_crit); }
void GOMP_critical_name_start(void **p) { lk((int *)p); }
void GOMP_critical_name_end(void **p) { ulk((int *)p); }
void GOMP_atomic_start(void) { lk(&g_atomic); }
void GOMP_atomic_end(void) { ulk(&g_atomic); }
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { Y(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long argsize, long align, bool, unsigned, void **, int, void *) {
    if (cpyfn) {
        std::vector<u8> b(argsize + align);
        void *a = (void *)(((uintptr_t)b.data() + align - 1) / align * align);
        cpyfn(a, data); fn(a);
    } else fn(data);
}
int omp_get_thread_num(void) { return g_cur ? g_cur->tid : 0; }
int omp_get_num_threads(void) { return team()->n; }
int omp_get_max_threads(void) { return g_omp_n; }
int omp_get_num_procs(void) { return g_procs; }
int omp_in_parallel(void) { return team()->n > 1; }
void omp_set_num_threads(int n) { if (n > 0) g_omp_n = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_level(void) { return team()->n > 1; }
int omp_get_thread_limit(void) { return 1 << 20; }
void omp_set_schedule(int, int) {}
double omp_get_wtime(void) { return (double)S->simtime; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(int *l) { *l = 0; }
void omp_destroy_lock(int *) {}
void omp_set_lock(int *l) { lk(l); }
void omp_unset_lock(int *l) { ulk(l); }
int omp_test_lock(int *l) { Y(); if (*l) return 0; *l = 1; recount(); return 1; }
// pthread subset
int sim_pthread_mutex_init(int *m, const void *) { *m = 0; return 0; }
int sim_pthread_mutex_destroy(int *) { return 0; }
int sim_pthread_mutex_lock(int *m) { if (!g_cur) { *m = 1; return 0; } lk(m); return 0; }
int sim_pthread_mutex_trylock(int *m) { Y(); if (*m) return EBUSY; *m = 1; recount(); return 0; }
int sim_pthread_mutex_unlock(int *m) { ulk(m); return 0; }
int sim_pthread_once(int *o, void (*f)(void)) {
    Y();
    if (*o == 2) return 0;
    if (*o == 1) { block_until([o] { return *o == 2; }); return 0; }
    *o = 1; f(); *o = 2; recount(); return 0;
}
int sim_pthread_create(unsigned long *t, const void *, void *(*f)(void *), void *arg) {
    Y();
    void **slot = new void *(nullptr);
    Coro *c = spawn([=] { *slot = f(arg); }, 8 << 10, STK);
    c->op = g_op; c->inlib = g_in_lib;
    auto *pr = new std::pair<Coro *, void **>(c, slot);
    *t = (unsigned long)pr; recount(); Y();
    return 0;
}
int sim_pthread_join(unsigned long t, void **r) {
    auto *pr = (std::pair<Coro *, void **> *)t;
    Coro *c = pr->first;
    block_until([c] { return c->done; });
    if (r) *r = *pr->second;
    return 0;
}
unsigned long sim_pthread_self(void) { return g_cur ? g_cur->id + 1 : 0; }
int sim_sched_yield(void) { Y(); return 0; }
// memory-access yield points (objects compiled with -fsanitize=thread, no libtsan)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
extern char __data_start, _end;
static inline void W(void *a) {                       // write access: remember sampled steps that touch process-wide variables
    if (!g_multi) return;
    if ((char *)a >= &__data_start && (char *)a < &_end) hot_write(a);
    sim_yield(0);
}
#define TS(n) void __tsan_read##n(void *) { Y(); } void __tsan_write##n(void *a) { W(a); } \
    void __tsan_unaligned_read##n(void *) { Y(); } void __tsan_unaligned_write##n(void *a) { W(a); } \
    void __tsan_volatile_read##n(void *) { Y(); } void __tsan_volatile_write##n(void *a) { W(a); } \
    void __tsan_unaligned_volatile_read##n(void *) { Y(); } void __tsan_unaligned_volatile_write##n(void *a) { W(a); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void *, unsigned long) { Y(); }
void __tsan_write_range(void *a, unsigned long) { W(a); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define TA(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { Y(); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { Y(); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { Y(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { Y(); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { Y(); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { Y(); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { Y(); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { Y(); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { Y(); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { Y(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { Y(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { Y(); T o = *a; if (o == c) *a = v; return o; }
TA(8, uint8_t) TA(16, uint16_t) TA(32, uint32_t) TA(64, uint64_t)
void __tsan_atomic_thread_fence(int) { Y(); }
void __tsan_atomic_signal_fence(int) {}
// block copies: a preemption may land in the middle
void *sim_memcpy(void *d, const void *s, size_t n) {
    if (g_multi && n > 1) { if ((char *)d >= &__data_start && (char *)d < &_end) hot_write(d); Y(); memcpy(d, s, n / 2); Y(); memcpy((u8 *)d + n / 2, (const u8 *)s + n / 2, n - n / 2); Y(); return d; }
    return memcpy(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
    if (g_multi && n > 1) { Y(); memset(d, c, n / 2); Y(); memset((u8 *)d + n / 2, c, n - n / 2); Y(); return d; }
    return memset(d, c, n);
}
}

// ============================================================ faults
int g_hard_io, g_unlink_fail, g_alloc_fail;
bool sim_fault(char dom, int64_t n, Fault &out) {
    for (auto &f : P->faults)
        if (f.op == g_op && f.dom == dom && f.n == n) { out = f; return true; }
    return false;
}

// ============================================================ allocator
struct Blk { size_t n; uint64_t id; };
static std::unordered_map<void *, Blk> g_blk;
static std::unordered_map<void *, Blk> g_freed;     // quarantine (non-ASan)
static uint64_t g_allocid; static int64_t g_livebytes;
static bool g_allocall; static int g_allocall_op;
static const size_t CAN = ASAN ? 0 : 32;
int64_t heap_live_blocks() { return (int64_t)g_blk.size(); }
int64_t heap_live_bytes() { return g_livebytes; }
static void chk_canary(void *p, const Blk &b) {
    if (!CAN) return;
    u8 *t = (u8 *)p + b.n;
    for (size_t i = 0; i < CAN; i++) if (t[i] != 0xC5) violate("heap-overflow", "write past the end of a %zu-byte library block", b.n);
}
static void chk_poison(void *p, const Blk &b) {
    u8 *t = (u8 *)p;
    for (size_t i = 0; i < b.n; i++) if (t[i] != 0xDB) violate("use-after-free", "write to a released %zu-byte library block", b.n);
}
void lib_heap_check() {
    if (!CAN) return;
    for (auto &x : g_blk) chk_canary(x.first, x.second);
    for (auto &x : g_freed) chk_poison(x.first, x.second);
}
static void alloc_site(int op, uint64_t site, int64_t n) {
    for (int i = S->nasite - 1; i >= 0; i--) { auto &a = S->asite[i]; if (a.op != op || a.site != site) continue; a.n[1] = n; a.cnt++; if (mix64((uint64_t)n, (uint64_t)a.cnt) % (uint64_t)a.cnt == 0) a.n[2] = n; return; }
    if (S->nasite < 256) S->asite[S->nasite++] = {op, site, {n, n, n}, 1};
}
static __attribute__((always_inline)) inline bool alloc_fail(void *ra = __builtin_return_address(0)) {   // one allocation event; true: make it fail
    if (!g_in_lib) return false;
    Y();
    int op = g_op;
    if (op < 0 || op >= MAXOPS) return false;
    int64_t n = ++S->nalloc[op];
    S->ctr[C_ALLOCS]++;
    if (P->faults.empty()) alloc_site(op, (uint64_t)ra, n);
    if (g_allocall && g_allocall_op == op) { S->ctr[F_ALLOC_ALL]++; g_alloc_fail++; return true; }
    Fault f;
    if (!P->faults.empty() && sim_fault('a', n, f)) {
        S->ctr[F_ALLOC_ONE]++; g_alloc_fail++;
        if (f.kind == "nullall") { g_allocall = true; g_allocall_op = op; }
        ev("alloc#%lld fails", (long long)n);
        sig(mix64(0xA110C, mix64(op, n)));
        return true;
    }
    return false;
}
u8 *g_arena, *g_arena_end;
static int64_t g_bnlive;      // BIGNUM and BN_CTX objects the library holds
// Blocks the library obtained after `since` (0: all) and still holds; what: size and allocation number of the oldest.
int64_t sim_live(int64_t since, std::string *what) {
    int64_t n = g_bnlive; const Blk *o = nullptr;
    for (auto &b : g_blk) if ((int64_t)b.second.id > since) { n++; if (!o || b.second.id < o->id) o = &b.second; }
    if (what) { char t[120]; if (o) snprintf(t, sizeof t, "a block of %zu bytes, %lld big numbers", o->n, (long long)g_bnlive); else snprintf(t, sizeof t, "%lld big numbers", (long long)g_bnlive); *what = t; }
    return n;
}
int64_t sim_alloc_id() { return (int64_t)g_allocid; }
static void *alloc_raw(size_t n, bool zero) {
    bool big = n > (96u << 20);
    if (big && !(P && P->e("bigmem"))) { errno = ENOMEM; return nullptr; }
    if (g_arena) {
        u8 *p = g_arena + 16;
        size_t m = (n + 15) / 16 * 16;
        if (p + m > g_arena_end) { fprintf(stderr, "pool arena full\n"); _exit(78); }
        *(size_t *)(p - 16) = n;
        g_arena = p + m;
        if (zero) memset(p, 0, n); else fill(p, n);
        return p;
    }
    if (!ASAN && P->e("bigmem") && g_in_lib) { void *p = zero ? calloc(1, n ? n : 1) : malloc(n ? n : 1); if (!p) { fprintf(stderr, "real OOM\n"); _exit(78); } return p; }   // huge messages: untracked
    if (g_livebytes > (int64_t)1 << 30 && !P->e("bigmem")) violate("memory-growth", "the library holds more than 1 GiB");
    u8 *p = (u8 *)malloc((n ? n : 1) + CAN);
    if (!p) { fprintf(stderr, "real OOM\n"); _exit(78); }
    if (zero) memset(p, 0, n); else if (!big) fill(p, n);
    if (CAN) memset(p + n, 0xC5, CAN);
    g_blk[p] = Blk{n, ++g_allocid};
    g_livebytes += (int64_t)n;
    return p;
}
extern "C" {
void *sim_malloc(size_t n) { if (alloc_fail()) { errno = ENOMEM; return nullptr; } return alloc_raw(n, false); }
void *sim_calloc(size_t a, size_t b) {
    if (alloc_fail()) { errno = ENOMEM; return nullptr; }
    if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
    return alloc_raw(a * b, true);
}
void sim_free(void *p) {
    if (!p || in_pool(p)) return;
    if (g_in_lib) Y();
    auto i = g_blk.find(p);
    if (i == g_blk.end()) {
        if (!ASAN) {
            if (g_freed.count(p)) violate("double-free", "block released twice");
        }
        free(p);
        return;
    }
    Blk b = i->second;
    g_livebytes -= (int64_t)b.n;
    chk_canary(p, b);
    g_blk.erase(i);
    if (ASAN) { free(p); return; }
    memset(p, 0xDB, b.n);
    if (b.n > 65536) { free(p); return; }   // keep the quarantine small
    g_freed[p] = b;
}
void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    if (alloc_fail()) { errno = ENOMEM; return nullptr; }
    auto i = g_blk.find(p);
    size_t old = 0;
    if (i != g_blk.end()) old = i->second.n;
    else if (in_pool(p)) old = *(size_t *)((u8 *)p - 16);
    else if (!ASAN && g_freed.count(p)) violate("use-after-free", "realloc of a released block");
    else { return realloc(p, n); }
    void *q = alloc_raw(n, false);
    if (!q) return nullptr;
    S->ctr[F_MOVE]++;
    memcpy(q, p, old < n ? old : n);
    bool il = g_in_lib; g_in_lib = false; sim_free(p); g_in_lib = il;
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void **p, size_t, size_t n) { void *q = sim_malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_CRYPTO_malloc(size_t n, const char *, int) { return sim_malloc(n); }
void *sim_CRYPTO_zalloc(size_t n, const char *, int) { return sim_calloc(1, n); }
void sim_CRYPTO_free(void *p, const char *, int) { sim_free(p); }
void sim_CRYPTO_clear_free(void *p, size_t n, const char *, int) { if (p) memset(p, 0, n); sim_free(p); }
BIGNUM *sim_BN_new(void) { if (alloc_fail()) return nullptr; g_bnlive++; return BN_new(); }
BIGNUM *sim_BN_secure_new(void) { return sim_BN_new(); }
BN_CTX *sim_BN_CTX_new(void) { if (alloc_fail()) return nullptr; g_bnlive++; return BN_CTX_new(); }
void sim_BN_free(BIGNUM *b) { if (b) { g_bnlive--; BN_free(b); } }
void sim_BN_clear_free(BIGNUM *b) { if (b) { g_bnlive--; BN_clear_free(b); } }
void sim_BN_CTX_free(BN_CTX *c) { if (c) { g_bnlive--; BN_CTX_free(c); } }
BIGNUM *sim_BN_dup(const BIGNUM *b) { if (!b || alloc_fail()) return nullptr; g_bnlive++; return BN_dup(b); }
BIGNUM *sim_BN_bin2bn(const u8 *s, int n, BIGNUM *r) { if (!r) { if (alloc_fail()) return nullptr; g_bnlive++; } return BN_bin2bn(s, n, r); }
}

// ============================================================ clock and random source
static uint32_t g_rand_state = 1; static uint64_t g_rand_draws; static uint64_t g_timecalls;
static int g_randmode;
extern "C" {
time_t sim_time(time_t *t) {
    if (g_in_lib) Y();
    uint64_t n = ++g_timecalls;
    if (n > 400000) violate("no-termination", "more than 400000 clock reads in one process (rejection loop does not end)");
    int64_t step = P->e("clkstep", 0);
    if (step == 1) S->simtime += (mix64(P->e("clkseed"), n) % 64) == 0;         // ordinary progress
    else if (step == 2) {                                                        // jumps, also backwards
        uint64_t h = mix64(P->e("clkseed"), n);
        if (h % 32 == 0) { S->simtime += (int64_t)(h >> 40) - (1 << 23); S->ctr[F_CLOCKJUMP]++; }
    }
    time_t v = (time_t)S->simtime;
    if (t) *t = v;
    return v;
}
long sim_clock(void) { return (long)(++g_timecalls); }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = sim_time(nullptr); tv->tv_usec = (long)(g_timecalls % 1000000); return 0; }
int sim_clock_gettime(int, struct timespec *ts) { ts->tv_sec = sim_time(nullptr); ts->tv_nsec = (long)(g_timecalls % 1000000000); return 0; }
void sim_srand(unsigned s) { g_rand_state = s; }
int sim_rand(void) {
    if (g_in_lib) Y();
    if (++g_rand_draws > 40000000) violate("no-termination", "more than 40000000 random draws in one process");
    uint64_t h = mix64(g_rand_state++, P->e("randseed", 7));
    if (g_randmode == 1) return (int)(h & 1 ? 0x7fffffff : 0);
    if (g_randmode == 2) return (int)((h & 0xff) == 0 ? (h >> 33) & 0x7fffffff : (int)(P->e("randseed") & 0x7fffffff));
    return (int)((h >> 20) & 0x7fffffff);
}
int sim_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345u; return (int)((*s >> 1) & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned s) { sim_srand(s); }
long sim_getrandom(void *b, size_t n, unsigned) { Bytes x = rbytes(mix64(P->e("randseed"), ++g_rand_draws), n); memcpy(b, x.data(), n); return (long)n; }
int sim_RAND_bytes(u8 *b, int n) { sim_getrandom(b, (size_t)n, 0); return 1; }
}

// ============================================================ disk (process-local open file table over shared inodes)
struct OpenFile { bool used; int ino; int64_t pos; int flags; char path[1100]; bool isfile; int64_t last_at, last_n; };
static OpenFile g_fd[64];
static std::map<FILE *, int> g_file;
static int64_t g_diskcap = -1;     // bytes the disk can still take (sticky full disk), -1: unlimited
static bool g_full;

static std::string norm(const char *p) { std::string s(p ? p : ""); while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
static Dent *find(const std::string &p) {
    for (int i = 0; i < MAXDENT; i++) if (S->dent[i].path[0] && p == S->dent[i].path) return &S->dent[i];
    return nullptr;
}
static bool g_bigdisk;             // files of several GiB; contents do not survive a crash (no crashes in such plans)
static int64_t inomax() { return g_bigdisk ? 5ll << 30 : INOSZ; }
static u8 *idata(int ino) {
    if (!g_bigdisk) return S_data + (size_t)ino * INOSZ;
    static u8 *big[MAXINO];
    if (!big[ino]) { big[ino] = (u8 *)mmap(nullptr, (size_t)inomax(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big[ino] == MAP_FAILED) { fprintf(stderr, "disk: no memory\n"); _exit(78); } }
    return big[ino];
}
static int new_ino() {
    for (int i = 0; i < MAXINO; i++) if (!S->ino[i].used) { S->ino[i].used = 1; S->ino[i].nlink = 0; S->ino[i].size = 0; return i; }
    return -1;
}
static bool ino_open(int ino) { for (auto &f : g_fd) if (f.used && f.ino == ino) return true; return false; }
static void ino_put(int ino) { if (S->ino[ino].nlink <= 0 && !ino_open(ino)) S->ino[ino].used = 0; }
static Dent *link_new(const std::string &p, int ino) {
    if (p.size() >= sizeof(S->dent[0].path) || p.empty()) return nullptr;
    for (int i = 0; i < MAXDENT; i++) if (!S->dent[i].path[0]) { strcpy(S->dent[i].path, p.c_str()); S->dent[i].ino = ino; S->ino[ino].nlink++; return &S->dent[i]; }
    return nullptr;
}
static void unlink_dent(Dent *d) { int ino = d->ino; d->path[0] = 0; S->ino[ino].nlink--; ino_put(ino); }
bool dk_exists(const std::string &p) { return find(p) != nullptr; }
Bytes dk_read(const std::string &p) { Dent *d = find(p); if (!d) return {}; u8 *x = idata(d->ino); return Bytes(x, x + S->ino[d->ino].size); }
void dk_write(const std::string &p, const Bytes &b) {
    Dent *d = find(p);
    if (!d) { int i = new_ino(); if (i < 0) { fprintf(stderr, "disk: no inode\n"); _exit(78); } d = link_new(p, i); }
    if (!d || (int64_t)b.size() > inomax()) { fprintf(stderr, "disk: full table\n"); _exit(78); }
    if (!b.empty()) memcpy(idata(d->ino), b.data(), b.size());
    S->ino[d->ino].size = (int64_t)b.size();
}
u8 *dk_data(const std::string &p, int64_t size) { if (size >= 0) { dk_write(p, Bytes()); S->ino[find(p)->ino].size = size; } Dent *d = find(p); return d ? idata(d->ino) : nullptr; }
int64_t dk_size(const std::string &p) { Dent *d = find(p); return d ? S->ino[d->ino].size : -1; }
void dk_remove(const std::string &p) { Dent *d = find(p); if (d) unlink_dent(d); }
std::vector<std::string> dk_list() { std::vector<std::string> v; for (auto &d : S->dent) if (d.path[0]) v.push_back(d.path); return v; }
int sim_open_files() { int n = 0; for (auto &f : g_fd) n += f.used; return n; }

[[noreturn]] static void crash(const char *how) {
    ev("CRASH %s", how);
    S->ctr[C_CRASH]++;
    S->resume_op = g_op + 1;
    _exit(77);
}
void sim_crash_now() { S->ctr[F_CRASH_BEFORE]++; crash("process ends"); }
// one system call; returns true when a fault must be applied (kinds other than crash before it)
static bool syscall_pt(char type, Fault &f) {
    if (!g_in_lib) return false;
    Y();
    int op = g_op;
    if (op < 0 || op >= MAXOPS) return false;
    int n = ++S->nsys[op];
    S->ctr[C_SYSCALLS]++;
    if (n <= MAXSYS) S->sys[op][n - 1] = type;
    if (n > (g_bigdisk ? 20000000 : 200000)) violate("no-termination", "more than 200000 system calls in one operation");
    if (P->faults.empty() || !sim_fault('s', n, f)) return false;
    ev("fault %c#%d %s/%lld", type, n, f.kind.c_str(), (long long)f.arg);
    sig(mix64(fnv(f.kind.data(), f.kind.size()), mix64((uint64_t)type, mix64(op, n))));
    if (f.kind == "crash_b") { S->ctr[F_CRASH_BEFORE]++; crash("before"); }
    return true;
}
static void after_pt(bool flt, const Fault &f) { if (flt && f.kind == "crash_a") { S->ctr[F_CRASH_AFTER]++; crash("after"); } }

static int sys_open(const char *path, int flags) {
    Fault f; bool flt = syscall_pt('o', f);
    if (flt && f.kind == "fail") { S->ctr[F_OPEN]++; g_hard_io++; errno = f.arg & 1 ? EMFILE : EACCES; return -1; }
    std::string p = norm(path);
    Dent *d = find(p);
    if (!d) {
        if (!(flags & O_CREAT) || p.empty()) { errno = ENOENT; return -1; }
        if (flt && f.kind == "enospc") { S->ctr[F_OPEN]++; g_hard_io++; errno = ENOSPC; return -1; }
        int i = new_ino();
        if (i < 0 || !(d = link_new(p, i))) { errno = ENOSPC; return -1; }
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) S->ino[d->ino].size = 0;
    int fd = -1;
    for (int i = 3; i < 64; i++) if (!g_fd[i].used) { fd = i; break; }
    if (fd < 0) { errno = EMFILE; return -1; }
    OpenFile &o = g_fd[fd];
    o.used = true; o.ino = d->ino; o.pos = 0; o.flags = flags; o.isfile = false; o.last_n = 0; o.last_at = 0;
    snprintf(o.path, sizeof o.path, "%s", p.c_str());
    ev("open %s %x", p.c_str(), flags);
    after_pt(flt, f);
    return fd;
}
static int64_t sys_pread(OpenFile &o, void *b, size_t n, int64_t pos) {
    int64_t sz = S->ino[o.ino].size;
    if (pos >= sz) return 0;
    if ((int64_t)n > sz - pos) n = (size_t)(sz - pos);
    memcpy(b, idata(o.ino) + pos, n);
    return (int64_t)n;
}
static int64_t sys_read(int fd, void *b, size_t n) {
    Fault f; bool flt = syscall_pt('r', f);
    if (fd < 0 || fd >= 64 || !g_fd[fd].used) { errno = EBADF; return -1; }
    OpenFile &o = g_fd[fd];
    if (flt) {
        if (f.kind == "eio") { S->ctr[F_READ_EIO]++; g_hard_io++; errno = EIO; return -1; }
        if (f.kind == "eintr") { S->ctr[F_READ_EINTR]++; g_hard_io++; errno = EINTR; return -1; }
        if (f.kind == "short" && n > 1) { S->ctr[F_READ_SHORT]++; size_t k = 1 + (size_t)f.arg % (n - 1); if (k < n) n = k; }
    }
    if ((o.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    int64_t r = sys_pread(o, b, n, o.pos);
    o.pos += r;
    ev("read %d %zu=%lld", fd, n, (long long)r);
    after_pt(flt, f);
    return r;
}
static void put(OpenFile &o, const void *b, size_t n) {
    Inode &i = S->ino[o.ino];
    if (o.flags & O_APPEND) o.pos = i.size;
    if (o.pos + (int64_t)n > inomax()) { violate("runaway-file", "the file %s grows beyond %lld bytes", o.path, (long long)inomax()); }
    if (o.pos > i.size) memset(idata(o.ino) + i.size, 0, (size_t)(o.pos - i.size));
    memcpy(idata(o.ino) + o.pos, b, n);
    o.last_at = o.pos; o.last_n = (int64_t)n;
    o.pos += (int64_t)n;
    if (o.pos > i.size) i.size = o.pos;
}
static int64_t sys_write(int fd, const void *b, size_t n) {
    Fault f; bool flt = syscall_pt('w', f);
    if (fd < 0 || fd >= 64 || !g_fd[fd].used) { errno = EBADF; return -1; }
    OpenFile &o = g_fd[fd];
    if (!(o.flags & O_ACCMODE)) { errno = EBADF; return -1; }
    if (g_full && g_in_lib) { S->ctr[F_FULL]++; g_hard_io++; errno = ENOSPC; return -1; }
    if (flt) {
        if (f.kind == "eio") { S->ctr[F_WRITE_EIO]++; g_hard_io++; errno = EIO; return -1; }
        if (f.kind == "enospc" || f.kind == "full") {
            if (f.kind == "full") g_full = true;
            size_t k = n ? (size_t)f.arg % n : 0;
            S->ctr[F_WRITE_ENOSPC]++; g_hard_io++;
            if (k) { put(o, b, k); g_full = true; ev("write %d partial %zu", fd, k); return (int64_t)k; }  // the retry gets ENOSPC
            errno = ENOSPC; return -1;
        }
        if (f.kind == "short" && n > 1) { S->ctr[F_WRITE_SHORT]++; n = 1 + (size_t)f.arg % (n - 1); }
        if (f.kind == "crash_t") { size_t k = n ? (size_t)f.arg % n : 0; put(o, b, k); S->ctr[F_CRASH_TORN]++; ev("torn %zu/%zu", k, n); crash("torn"); }
    }
    put(o, b, n);
    ev("write %d %zu", fd, n);
    after_pt(flt, f);
    return (int64_t)n;
}
static int64_t sys_lseek(int fd, int64_t off, int wh) {
    Fault f; bool flt = syscall_pt('s', f);
    if (fd < 0 || fd >= 64 || !g_fd[fd].used) { errno = EBADF; return -1; }
    if (flt && f.kind == "fail") { S->ctr[F_SEEK]++; g_hard_io++; errno = EIO; return -1; }
    OpenFile &o = g_fd[fd];
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o.pos : S->ino[o.ino].size;
    if (base + off < 0) { errno = EINVAL; return -1; }
    o.pos = base + off;
    after_pt(flt, f);
    return o.pos;
}
static int sys_close(int fd) {
    Fault f; bool flt = syscall_pt('c', f);
    if (fd < 0 || fd >= 64 || !g_fd[fd].used) { errno = EBADF; return -1; }
    OpenFile &o = g_fd[fd];
    int r = 0;
    if (flt && f.kind == "eio") {                 // delayed write error: the last write is lost, in part or whole
        S->ctr[F_CLOSE]++; r = -1; g_hard_io++;
        if (o.last_n > 0) {
            int64_t keep = f.arg % o.last_n;
            if (S->ino[o.ino].size == o.last_at + o.last_n) S->ino[o.ino].size = o.last_at + keep;
        }
    }
    ev("close %s=%d", o.path, r);
    o.used = false;
    ino_put(o.ino);
    if (r) errno = EIO;
    after_pt(flt, f);
    return r;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return sys_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    size_t done = 0;
    while (done < n) {                            // glibc's own loop over write(2)
        int64_t r = sys_write((int)(intptr_t)c, b + done, n - done);
        if (r < 0) break;
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *off, int wh) { int64_t r = sys_lseek((int)(intptr_t)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void *c) { return sys_close((int)(intptr_t)c); }
static FILE *mkfile(int fd, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *fp = fopencookie((void *)(intptr_t)fd, mode, io);
    if (!fp) { g_fd[fd].used = false; return nullptr; }
    g_fd[fd].isfile = true;
    int64_t bs = P->e("bufsz", 0);
    if (bs > 0) { char *b = (char *)malloc((size_t)bs); setvbuf(fp, b, _IOFBF, (size_t)bs); }
    g_file[fp] = fd;
    return fp;
}
extern "C" {
FILE *sim_fopen(const char *path, const char *mode) {
    int fl = 0; bool plus = strchr(mode, '+') != nullptr;
    switch (mode[0]) {
        case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
        case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: errno = EINVAL; return nullptr;
    }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = sys_open(path, fl);
    if (fd < 0) return nullptr;
    char m[4] = {mode[0], plus ? '+' : 0, 0, 0};
    return mkfile(fd, m);
}
FILE *sim_fdopen(int fd, const char *mode) { if (fd < 3 || fd >= 64 || !g_fd[fd].used) { errno = EBADF; return nullptr; } bool plus = strchr(mode, '+') != nullptr; char m[4] = {mode[0], plus ? '+' : 0, 0, 0}; return mkfile(fd, m); }
FILE *sim_tmpfile(void) { static int k; char n[40]; snprintf(n, sizeof n, ".tmpfile%d.%d", S->incarnation, k++); FILE *f = sim_fopen(n, "w+"); if (f) dk_remove(n); return f; }
FILE *sim_freopen(const char *path, const char *mode, FILE *fp) { if (fp == stdout || fp == stderr || fp == stdin) return fp; fclose(fp); g_file.erase(fp); return sim_fopen(path, mode); }
int sim_fclose(FILE *fp) {
    if (fp == stdout || fp == stderr || fp == stdin) return 0;
    if (!fp) violate("null-file", "fclose(NULL)");
    auto i = g_file.find(fp);
    if (i == g_file.end()) violate("bad-fclose", "fclose of a stream that is not open");
    g_file.erase(i);
    return fclose(fp);
}
int sim_fileno(FILE *fp) { auto i = g_file.find(fp); return i == g_file.end() ? fileno(fp) : i->second; }
int sim_open(const char *p, int fl, ...) { return sys_open(p, fl); }
int sim_creat(const char *p, int) { return sys_open(p, O_WRONLY | O_CREAT | O_TRUNC); }
long sim_read(int fd, void *b, size_t n) { return sys_read(fd, b, n); }
long sim_write(int fd, const void *b, size_t n) { if (fd == 1 || fd == 2) return (long)n; return sys_write(fd, b, n); }
long sim_pread(int fd, void *b, size_t n, long off) { if (sys_lseek(fd, off, SEEK_SET) < 0) return -1; return sys_read(fd, b, n); }
long sim_pwrite(int fd, const void *b, size_t n, long off) { if (sys_lseek(fd, off, SEEK_SET) < 0) return -1; return sys_write(fd, b, n); }
long sim_lseek(int fd, long o, int w) { return sys_lseek(fd, o, w); }
int sim_close(int fd) { return sys_close(fd); }
static int st_fill(int ino, struct stat *st) { memset(st, 0, sizeof *st); st->st_size = S->ino[ino].size; st->st_mode = S_IFREG | 0644; st->st_nlink = (nlink_t)S->ino[ino].nlink; st->st_ino = (ino_t)ino + 100; st->st_dev = 1; st->st_blksize = 4096; return 0; }
int sim_fstat(int fd, struct stat *st) { Fault f; syscall_pt('t', f); if (fd < 0 || fd >= 64 || !g_fd[fd].used) { errno = EBADF; return -1; } return st_fill(g_fd[fd].ino, st); }
int sim_stat(const char *p, struct stat *st) { Fault f; syscall_pt('t', f); Dent *d = find(norm(p)); if (!d) { errno = ENOENT; return -1; } return st_fill(d->ino, st); }
int sim_access(const char *p, int) { Fault f; syscall_pt('t', f); if (find(norm(p))) return 0; errno = ENOENT; return -1; }
int sim_remove(const char *p) {
    Fault f; bool flt = syscall_pt('u', f);
    if (flt && f.kind == "fail") { S->ctr[F_UNLINK]++; g_unlink_fail++; errno = EACCES; return -1; }
    Dent *d = find(norm(p));
    if (!d) { errno = ENOENT; return -1; }
    ev("remove %s", d->path);
    unlink_dent(d);
    after_pt(flt, f);
    return 0;
}
int sim_unlink(const char *p) { return sim_remove(p); }
int sim_rename(const char *a, const char *b) {
    Fault f; bool flt = syscall_pt('n', f);
    if (flt && f.kind == "fail") { S->ctr[F_RENAME]++; g_hard_io++; errno = EACCES; return -1; }
    Dent *d = find(norm(a));
    if (!d) { errno = ENOENT; return -1; }
    std::string nb = norm(b);
    if (nb == d->path) return 0;
    Dent *o = find(nb);
    if (o) unlink_dent(o);
    snprintf(d->path, sizeof d->path, "%s", nb.c_str());
    ev("rename %s %s", a, b);
    after_pt(flt, f);
    return 0;
}
int sim_ftruncate(int fd, long n) {
    Fault f; bool flt = syscall_pt('f', f);
    if (flt && f.kind == "fail") { g_hard_io++; errno = EIO; return -1; }
    if (fd < 0 || fd >= 64 || !g_fd[fd].used || n > inomax()) { errno = EBADF; return -1; }
    Inode &i = S->ino[g_fd[fd].ino];
    if (n > i.size) memset(idata(g_fd[fd].ino) + i.size, 0, (size_t)(n - i.size));
    i.size = n;
    after_pt(flt, f);
    return 0;
}
int sim_truncate(const char *p, long n) { int fd = sys_open(p, O_RDWR); if (fd < 0) return -1; int r = sim_ftruncate(fd, n); sys_close(fd); return r; }
int sim_fsync(int fd) {
    Fault f; bool flt = syscall_pt('y', f);
    if (flt && f.kind == "fail") { S->ctr[F_SYNC]++; g_hard_io++; errno = EIO; return -1; }
    if (fd < 0 || fd >= 64 || !g_fd[fd].used) { errno = EBADF; return -1; }
    after_pt(flt, f);
    return 0;
}
int sim_mkstemp(char *t) {
    static int k;
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return -1; }
    char s[16]; snprintf(s, sizeof s, "%06d", (k++ * 7919 + S->incarnation * 104729) % 1000000);
    memcpy(t + n - 6, s, 6);
    return sys_open(t, O_RDWR | O_CREAT | O_EXCL);
}
int sim_chmod(const char *, unsigned) { return 0; }
int sim_mkdir(const char *, unsigned) { return 0; }
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_open64(const char *p, int fl, ...) { return sys_open(p, fl); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
long sim_lseek64(int fd, long o, int w) { return sys_lseek(fd, o, w); }
// console output of the library
int sim_printf(const char *, ...) { return 0; }
int sim_puts(const char *) { return 0; }
int sim_putchar(int c) { return c; }
int sim_perror(const char *) { return 0; }
[[noreturn]] void sim_abort(void) { violate("abort", "the library called abort()"); }
[[noreturn]] void sim_exit(int c) { violate("exit", "the library called exit(%d)", c); }
[[noreturn]] void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { (void)l; violate("assert", "assertion failed: %s (%s)", e, strrchr(f, '/') ? strrchr(f, '/') + 1 : f); }
[[noreturn]] void sim___stack_chk_fail(void) { violate("stack-smash", "stack protector"); }
}

void sim_child_init(const Plan &p) {
    tls_init(); g_maintls = nullptr;
    g_fillseed = (uint64_t)p.e("fillseed", 1); g_fillmode = (int)p.e("fillmode", 2); g_fillctr = 0;
    g_fseed = (uint64_t)p.e("fseed", 0); g_fcount = 0; g_preidx = 0;
    // preemptions already consumed by earlier incarnations
    while (g_preidx < p.pre.size() && p.pre[g_preidx].step <= S->steps) g_preidx++;
    g_rand_state = 1; g_rand_draws = 0; g_timecalls = 0; g_randmode = (int)p.e("randmode", 0);
    g_hard_io = g_unlink_fail = g_alloc_fail = 0; g_full = false; g_allocall = false;
    g_omp_n = g_procs = (int)p.e("procs", 4); g_bigdisk = p.e("bigdisk");
    g_allocid = 0; g_nextid = 0;
    g_freed.clear();
    if (S->incarnation == 0) S->simtime = p.e("clock", 1700000000);
    else S->simtime += 1 + (int64_t)(mix64((uint64_t)p.e("clkseed"), (uint64_t)S->incarnation) % 3);
}
void clear_io_fault_flag() { g_hard_io = 0; g_unlink_fail = 0; g_alloc_fail = 0; g_full = false; g_allocall = false; }
bool hard_io_fault_fired() { return g_hard_io > 0; }
bool unlink_fault_fired() { return g_unlink_fail > 0; }
