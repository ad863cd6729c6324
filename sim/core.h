// Deterministic simulator core: plans, seeded PRNG, shared (durable) state, events, violations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <utility>

typedef uint8_t u8;
typedef std::vector<u8> Bytes;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)(next() % (uint64_t)(b - a + 1)); } // inclusive
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};
uint64_t mix64(uint64_t a, uint64_t b);

struct Op {
    std::string name;
    std::vector<std::pair<std::string, int64_t>> a;
    int64_t get(const char *k, int64_t def = 0) const {
        for (auto &x : a) if (x.first == k) return x.second;
        return def;
    }
    Op &set(const char *k, int64_t v) {
        for (auto &x : a) if (x.first == k) { x.second = v; return *this; }
        a.emplace_back(k, v);
        return *this;
    }
};
struct Fault { int op; char dom; int64_t n; std::string kind; int64_t arg; }; // dom: 's' system call, 'a' allocation
struct Pre { int64_t step; int64_t to; };
struct Plan {
    std::string prop, variant;
    int64_t seed = 0;
    std::map<std::string, int64_t> env;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::vector<Pre> pre;
    int64_t e(const char *k, int64_t def = 0) const { auto i = env.find(k); return i == env.end() ? def : i->second; }
    Op &add(const char *n) { ops.push_back(Op{n, {}}); return ops.back(); }
};
std::string plan_text(const Plan &);
bool plan_parse(const std::string &, Plan &);

// ------------------------------------------------------------------ state surviving a (simulated) process crash
enum { MAXOPS = 96, MAXSYS = 6000, MAXINO = 64, INOSZ = 9 << 20, MAXDENT = 64, PERSIST = 1 << 16 };
enum Ctr {
    C_RUNS, C_OPS, C_SYSCALLS, C_ALLOCS, C_STEPS, C_SWITCHES, C_FORCED, C_CRASH, C_RESTART,
    F_OPEN, F_READ_EIO, F_READ_SHORT, F_READ_EINTR, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_SEEK, F_CLOSE, F_UNLINK,
    F_CRASH_BEFORE, F_CRASH_AFTER, F_CRASH_TORN, F_FULL, F_ALLOC_ONE, F_ALLOC_ALL, F_TAMPER, F_CLOCKJUMP, F_PREEMPT, F_TEAM, F_MOVE, F_RENAME, F_SYNC,
    C_PROBE0, C_PROBE_LAST = C_PROBE0 + 31,
    NCTR
};
extern const char *ctr_name[NCTR];

struct Inode { int used; int nlink; int64_t size; };
struct Dent { char path[1100]; int ino; };
struct Shared {
    int status;          // 0 running, 1 finished, 2 violation
    char vclass[120];
    char vmsg[2000];
    uint64_t hash, nev;
    uint64_t schedhash;
    int64_t steps;
    int resume_op;       // op at which the next incarnation starts
    int incarnation;
    int64_t simtime;     // simulated seconds
    int64_t ctr[NCTR];
    int nsys[MAXOPS];
    int nalloc[MAXOPS];
    char sys[MAXOPS][MAXSYS];
    struct ASite { int op; uint64_t site; int64_t n[3], cnt; } asite[256]; int nasite;   // allocating code places per operation: first, last and a sampled occurrence
    int64_t hot[512]; int nhot;      // steps at which the library wrote process-wide variables (sampled; build T)
    uint64_t sigs[64]; int nsig;     // coverage signatures of this run
    char persist[PERSIST];           // oracle-side memory (what the "user" knows), survives crashes
    Inode ino[MAXINO];
    Dent dent[MAXDENT];
};
extern Shared *S;
extern u8 *S_data;        // MAXINO * INOSZ, shared
extern const Plan *P;     // plan being executed (child)
extern bool g_trace;

void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // hashed event
void evhash(const char *what, const void *p, size_t n);
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void sig(uint64_t s);                       // coverage signature
inline void probe(int i) { S->ctr[C_PROBE0 + i]++; }
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
Bytes rbytes(uint64_t seed, size_t n, int shape = 0);
std::string hex(const Bytes &b, size_t max = 48);

// ------------------------------------------------------------------ simulated environment
struct SimCtl {
    bool in_lib = false;      // faults and counters apply only inside library calls
    int op = 0;
};
void sim_child_init(const Plan &p);         // per incarnation
int sim_cur_op();
void sim_set_op(int op);
bool sim_fault(char dom, int64_t n, Fault &out);
// run a library call on a fresh stack filled with seeded garbage, faults armed
void lib(const std::function<void()> &f, size_t stackfill = 24 << 10);
// same, faults not armed (harness-side use of the library)
void lib_quiet(const std::function<void()> &f, size_t stackfill = 24 << 10);
void lib_heap_check();                       // canaries / poison of non-ASan builds
int64_t heap_live_blocks(); int64_t heap_live_bytes();
bool op_alloc_faulted(int op);
// concurrency: run all fs as coroutines under the plan's schedule
void run_concurrent(const std::vector<std::function<void()>> &fs, const std::vector<int> &ops);
void sim_yield(int kind);
extern bool g_in_lib;
int sim_open_files();
int64_t sim_live(int64_t since, std::string *what);   // memory blocks and big numbers the library holds
int64_t sim_alloc_id();
bool hard_io_fault_fired(); void clear_io_fault_flag();
bool unlink_fault_fired();
extern int g_hard_io, g_unlink_fail, g_alloc_fail;

// disk access for the harness (no faults)
u8 *dk_data(const std::string &p, int64_t size); int64_t dk_size(const std::string &p);
bool dk_exists(const std::string &p);
Bytes dk_read(const std::string &p);
void dk_write(const std::string &p, const Bytes &b);
void dk_remove(const std::string &p);
std::vector<std::string> dk_list();

// library-allocated memory released by the harness
extern "C" void sim_free(void *);
extern "C" void *sim_malloc(size_t);

// ------------------------------------------------------------------ modules
struct Module {
    const char *prop;
    void (*gen)(Rng &r, Plan &p);               // ops + env (no faults, no schedule)
    void (*exec)(const Plan &p, int start);     // run ops[start..], checks the oracle
    const char *knobs;                          // "f" io faults, "c" crashes, "a" alloc faults, "s" schedules, "p" uses the table pool
    int fan;                                    // fault / schedule placements tried per generated workload
};
std::vector<Module> &modules();
struct RegMod { RegMod(Module m) { modules().push_back(m); } };

// white-box tables generated once per worker process (each in a forked process of its own, from pristine
// library state and a fixed seed, so that entry (kind,idx) is the same in every process) and shared copy-on-write
struct PoolEntry { int state; void *a, *b; u8 key[16]; size_t used; };   // state 0 empty, 1 ready, 2 generation failed
enum { KAES, KSM4, KWBAES, KWBSM4, KEE, KMASK, NKIND };
enum { POOLIDX = 3 };
const PoolEntry &pool_get(int kind, int idx);
void pool_gen(int kind, int idx, PoolEntry &e);            // runs in the generator process (modules)
extern u8 *g_arena, *g_arena_end;                          // allocator arena while generating
bool in_pool(const void *p);
void pool_wipe(int kind, int idx);                         // this process loses the entry's memory (filled with garbage)
[[noreturn]] void sim_crash_now();                         // the process ends here; the next one starts at the following operation

// directory part of a path: 0 none, 1-9 unusual characters, >= 10 about that many characters
inline std::string path_style(int st, int id) {
    static const char *odd[] = {"", "", "my %s%n dir/", "a b\t'\"$(x)/", "\xe5\x9b\xbd\xe5\xaf\x86/", ".hidden/", "x.y.z/..w/", "/abs/olute/", "-rf ", "~/\\q/"};
    if (st < 10) return odd[st < 0 ? 0 : st];
    std::string s; while ((int)s.size() < st) s += (s.size() % 200 == 199 ? '/' : (char)('a' + (s.size() + (size_t)id) % 26));
    return s + "/";
}
template <class T> T *persist(size_t off = 0) { return (T *)(S->persist + off); }
