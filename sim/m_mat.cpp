// P20: the random linear maps (WBMatrix) are true inverse pairs, compositions and block sums for every random draw, clock, history and schedule
#include "lib.h"
extern "C" {
#include <WBMatrix/WBMatrix.h>
}
namespace {
// reference: n x n bit matrix, row i column j (leftmost column first)
struct BM { int n = 0; u8 b[128][128] = {}; };
typedef std::vector<u8> BV;
BM mul(const BM &x, const BM &y) { BM r; r.n = x.n; for (int i = 0; i < x.n; i++) for (int k = 0; k < x.n; k++) if (x.b[i][k]) for (int j = 0; j < x.n; j++) r.b[i][j] ^= y.b[k][j]; return r; }
BV app(const BM &x, const BV &v) { BV r((size_t)x.n); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) r[(size_t)i] ^= x.b[i][j] & v[(size_t)j]; return r; }
BV add(BV a, const BV &b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; return a; }
bool unit(const BM &x) { for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) if (x.b[i][j] != (i == j)) return false; return true; }
bool same(const BM &x, const BM &y) { if (x.n != y.n) return false; for (int i = 0; i < x.n; i++) if (memcmp(x.b[i], y.b[i], (size_t)x.n)) return false; return true; }
int rank(BM x) {
    int r = 0;
    for (int c = 0; c < x.n; c++) {
        int p = r; while (p < x.n && !x.b[p][c]) p++;
        if (p == x.n) continue;
        for (int j = 0; j < x.n; j++) std::swap(x.b[p][j], x.b[r][j]);
        for (int i = 0; i < x.n; i++) if (i != r && x.b[i][c]) for (int j = 0; j < x.n; j++) x.b[i][j] ^= x.b[r][j];
        r++;
    }
    return r;
}
BM draw(Rng &r, int n, int shape) {
    BM m; m.n = n;
    double d = shape == 1 ? 0.1 : shape == 2 ? 0.9 : 0.5;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m.b[i][j] = r.chance(d);
    if (shape >= 3) {                                           // invertible: permuted rows of an upper triangle, mixed
        std::vector<int> pm; for (int i = 0; i < n; i++) pm.push_back(i);
        for (int i = n - 1; i > 0; i--) std::swap(pm[(size_t)i], pm[(size_t)r.range(0, i)]);
        BM t; t.n = n;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t.b[pm[(size_t)i]][j] = i == j ? 1 : j > i && shape != 5 ? m.b[i][j] : 0;
        if (shape == 4) { for (int k = 0; k < 4 * n; k++) { int a = (int)r.range(0, n - 1), b = (int)r.range(0, n - 1); if (a != b) for (int j = 0; j < n; j++) t.b[a][j] ^= t.b[b][j]; } }
        m = t;
        if (shape == 6) { int a = (int)r.range(0, n - 1), b = (int)r.range(0, n - 1); memcpy(m.b[a], m.b[b], 128); if (a == b) memset(m.b[a], 0, 128); }   // one dependent row
    }
    return m;
}
BV bits(Rng &r, int n) { BV v((size_t)n); for (auto &x : v) x = r.next() & 1; return v; }

// the library's types
#define U64OF(row, n, k) (((uint64_t)(row)) >> ((n) - 1 - (k)) & 1)
template <int N> struct T;
#define COMMON_T(N, W) \
template <> struct T<N> { \
    typedef M##N M; typedef V##N V; typedef Aff##N A; typedef W word; \
    static BM bm(const M &m) { BM r; r.n = N; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r.b[i][j] = U64OF(m.M[i], N, j); return r; } \
    static bool clean(const M &m) { if (N == 4) for (int i = 0; i < N; i++) if ((uint64_t)m.M[i] >> (N & 63)) return false; return true; } \
    static M of(const BM &b) { M m; for (int i = 0; i < N; i++) { uint64_t x = 0; for (int j = 0; j < N; j++) x = x << 1 | b.b[i][j]; m.M[i] = (word)x; } return m; } \
    static BV bv(const V &v) { BV r(N); for (int j = 0; j < N; j++) r[(size_t)j] = U64OF(v.V, N, j); return r; } \
    static V vof(const BV &b) { uint64_t x = 0; for (auto c : b) x = x << 1 | c; V v; v.V = (word)x; return v; } \
    static BV aff(const A &a, const BV &x) { V v = vof(x); word w = 0; lib([&] { w = affineU##N(a, v.V); }); V o; o.V = w; return bv(o); } \
    static BV num(const M &m, const BV &x) { V v = vof(x); word w = 0; lib([&] { w = MatMulNumM##N(m, v.V); }); V o; o.V = w; return bv(o); } \
    static int par(const BV &x) { V v = vof(x); int r = 0; lib([&] { r = xorU##N(v.V); }); return r; } \
    static int hw(const BV &x) { V v = vof(x); int r = 0; lib([&] { r = HWU##N(v.V); }); return r; } \
    CALLS(N) };
#define CALLS(N) \
    static void gen(M *a, M *b) { genMatpairM##N(a, b); } static void gena(A *a, A *b) { genaffinepairM##N(a, b); } \
    static void mix(const A &a, const A &b, A *c) { affinemixM##N(a, b, c); } static int isinv(const M &m) { return isinvertM##N(m); } \
    static void inv(const M &m, M *o) { invsM##N(m, o); } static void mm(const M &a, const M &b, M *o) { MatMulMatM##N(a, b, o); } \
    static void mv(const M &a, const V &v, V *o) { MatMulVecM##N(a, v, o); } static void tr(const M &a, M *o) { MattransM##N(a, o); } \
    static void ma(const M &a, const M &b, M *o) { MatAddMatM##N(a, b, o); } static void va(const V &a, const V &b, V *o) { VecAddVecV##N(a, b, o); } \
    static void rm(M *m) { randM##N(m); } static void rv(V *v) { randV##N(v); } static void id(M *m) { identityM##N(m); } static void in(M *m) { initM##N(m); } static void iv(V *v) { initV##N(v); } \
    static void cp(const M &a, M *b) { copyM##N(a, b); } static int eqm(const M &a, const M &b) { return isequalM##N(a, b); } static int eqv(const V &a, const V &b) { return isequalV##N(a, b); } \
    static int rd(const M &m, int i, int j) { return readbitM##N(m, i, j); } static void fl(M *m, int i, int j) { flipbitM##N(m, i, j); } static void st(M *m, int i, int j, int b) { setbitM##N(m, i, j, b); }
COMMON_T(4, uint8_t) COMMON_T(8, uint8_t) COMMON_T(16, uint16_t) COMMON_T(32, uint32_t) COMMON_T(64, uint64_t)
template <> struct T<128> {
    typedef M128 M; typedef V128 V; typedef Aff128 A;
    static BM bm(const M &m) { BM r; r.n = 128; for (int i = 0; i < 128; i++) for (int j = 0; j < 128; j++) r.b[i][j] = m.M[i][j / 64] >> (63 - j % 64) & 1; return r; }
    static bool clean(const M &) { return true; }
    static M of(const BM &b) { M m; memset(&m, 0, sizeof m); for (int i = 0; i < 128; i++) for (int j = 0; j < 128; j++) m.M[i][j / 64] |= (uint64_t)b.b[i][j] << (63 - j % 64); return m; }
    static BV bv(const V &v) { BV r(128); for (int j = 0; j < 128; j++) r[(size_t)j] = v.V[j / 64] >> (63 - j % 64) & 1; return r; }
    static V vof(const BV &b) { V v; v.V[0] = v.V[1] = 0; for (int j = 0; j < 128; j++) v.V[j / 64] |= (uint64_t)b[(size_t)j] << (63 - j % 64); return v; }
    static BV aff(const A &a, const BV &x) { V v = vof(x), o; lib([&] { affineU128(a, v.V, o.V); }); return bv(o); }
    static BV num(const M &m, const BV &x) { return app(bm(m), x); }
    static int par(const BV &x) { V v = vof(x); int r = 0; lib([&] { r = xorU128(v.V); }); return r; }
    static int hw(const BV &x) { V v = vof(x); int r = 0; lib([&] { r = HWU128(v.V); }); return r; }
    CALLS(128) };
template <class X> X dirty(uint64_t seed) { X x; Bytes b = rbytes(seed, sizeof x); memcpy(&x, b.data(), sizeof x); return x; }

template <int N> struct W {
    typedef T<N> L; typedef typename L::M M; typedef typename L::V V; typedef typename L::A A;
    A last, last_inv; bool have = false;
    static void bad(const char *cls, const char *what) { violate(cls, "%s (size %d)", what, N); }
    void aff_ok(const char *cls, const char *what, const A &a, const A &b, Rng &r) {      // b after a is the identity and the other way round
        BM x = L::bm(a.Mat), y = L::bm(b.Mat);
        if (!L::clean(a.Mat) || !L::clean(b.Mat) || !unit(mul(x, y)) || !unit(mul(y, x))) bad(cls, what);
        if (add(app(y, L::bv(a.Vec)), L::bv(b.Vec)) != BV(N, 0)) bad(cls, what);
        for (int k = 0; k < 3; k++) { BV v = bits(r, N); if (L::aff(b, L::aff(a, v)) != v || L::aff(a, L::aff(b, v)) != v) bad(cls, what); }
    }
    void op(const Op &o) {
        Rng r((uint64_t)o.get("seed") + 77); uint64_t ds = (uint64_t)o.get("seed") + 5; int shape = (int)o.get("shape");
        if (o.name == "pair") {
            auto a = dirty<M>(ds), b = dirty<M>(ds + 1); lib([&] { L::gen(&a, &b); }, 160 << 10);
            if (!L::clean(a) || !L::clean(b) || !unit(mul(L::bm(a), L::bm(b))) || !unit(mul(L::bm(b), L::bm(a)))) bad("not-inverse", "genMatpair: the matrices are not inverse to each other");
            evhash("pair", &a, sizeof a);
        } else if (o.name == "aff") {
            auto a = dirty<A>(ds), b = dirty<A>(ds + 1); lib([&] { L::gena(&a, &b); }, 160 << 10);
            aff_ok("not-inverse", "genaffinepair: the maps are not inverse to each other", a, b, r);
            if (have) {
                A m = dirty<A>(ds + 2), m2 = dirty<A>(ds + 3); A pi = last_inv, pl = last;
                lib([&] { L::mix(a, pi, &m); L::mix(pl, b, &m2); });
                for (int k = 0; k < 3; k++) { BV v = bits(r, N); if (L::aff(m, v) != L::aff(a, L::aff(pi, v)) || L::aff(m2, v) != L::aff(pl, L::aff(b, v))) bad("wrong-composition", "affinemix is not the composition of its arguments"); }
                aff_ok("wrong-composition", "the mix of (a, p^-1) and the mix of (p, a^-1) are not inverse to each other", m, m2, r);
            }
            last = a; last_inv = b; have = true; evhash("aff", &a.Mat, sizeof a.Mat);
        } else if (o.name == "inv") {
            BM m = draw(r, N, shape); bool reg = rank(m) == N; M a = L::of(m), b = dirty<M>(ds); int f = -1;
            lib([&] { f = L::isinv(a); });
            if ((f != 0) != reg) violate("wrong-invertible", "isinvert says %d for a matrix of rank %d (size %d)", f, rank(m), N);
            if (reg) { lib([&] { L::inv(a, &b); }); if (!unit(mul(m, L::bm(b))) || !L::clean(b)) bad("not-inverse", "invs does not give the inverse of an invertible matrix"); }
            ev("inv %d %d", N, f);
        } else if (o.name == "alg") {
            BM x = draw(r, N, shape), y = draw(r, N, 0); M a = L::of(x), b = L::of(y), c = dirty<M>(ds), d = c; BV u = bits(r, N), v = bits(r, N); V uu = L::vof(u), vv = L::vof(v), w = dirty<V>(ds), z = w;
            lib([&] { L::mm(a, b, &c); }); if (!same(L::bm(c), mul(x, y))) bad("wrong-algebra", "MatMulMat");
            lib([&] { L::mv(a, uu, &w); }); if (L::bv(w) != app(x, u)) bad("wrong-algebra", "MatMulVec");
            if (L::num(a, u) != app(x, u)) bad("wrong-algebra", "MatMulNum");
            c = d; lib([&] { L::tr(a, &c); }); { BM t = L::bm(c); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (t.b[i][j] != x.b[j][i]) bad("wrong-algebra", "Mattrans"); }
            c = d; lib([&] { L::ma(a, b, &c); }); { BM t = L::bm(c); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (t.b[i][j] != (x.b[i][j] ^ y.b[i][j])) bad("wrong-algebra", "MatAddMat"); }
            lib([&] { L::va(uu, vv, &z); }); if (L::bv(z) != add(u, v)) bad("wrong-algebra", "VecAddVec");
            int one = 0; for (auto q : u) one += q;
            if (L::par(u) != (one & 1) || L::hw(u) != one) bad("wrong-algebra", "xorU or HWU");
            c = d; lib([&] { L::id(&c); }); if (!unit(L::bm(c))) bad("wrong-algebra", "identity");
            int i = (int)r.range(0, N - 1), j = (int)r.range(0, N - 1), bit = (int)r.range(0, 1), e1 = 0, e2 = 0, rb = 0;
            lib([&] { L::cp(a, &c); e1 = L::eqm(a, c); rb = L::rd(c, i, j); L::st(&c, i, j, bit); }); BM t = x; t.b[i][j] = (u8)bit; 
            if (e1 != 1 || rb != x.b[i][j] || !same(L::bm(c), t)) bad("wrong-algebra", "copy, isequal, readbit or setbit");
            lib([&] { L::fl(&c, i, j); e2 = L::eqm(a, c); }); t.b[i][j] ^= 1;
            if (!same(L::bm(c), t) || (e2 == 1) != same(t, x)) bad("wrong-algebra", "flipbit or isequal");
            V s1 = uu; lib([&] { e1 = L::eqv(uu, s1); e2 = L::eqv(uu, vv); L::in(&d); L::iv(&s1); });
            if (e1 != 1 || (e2 == 1) != (u == v) || rank(L::bm(d)) || L::bv(s1) != BV(N, 0)) bad("wrong-algebra", "isequalV, initM or initV");
            M ra = dirty<M>(ds + 4); V rv = dirty<V>(ds + 4); lib([&] { L::rm(&ra); L::rv(&rv); });
            if (!L::clean(ra)) bad("wrong-algebra", "randM gives bits outside the matrix");
            evhash("alg", &a, sizeof a);
        }
        sig(mix64((uint64_t)N, mix64(fnv(o.name.data(), o.name.size()), (uint64_t)shape)));
    }
};
template <int N, int K> struct Com {     // block diagonal sums of K maps of size N
    std::vector<Aff8> a8; typedef T<N> L; std::vector<typename L::A> p;
    template <class BIG, class F> void run(Rng &r, uint64_t ds, F f) {
        typedef typename BIG::A BA; p.clear();
        for (int k = 0; k < K; k++) { typename L::A a; a.Mat = L::of(draw(r, N, k & 3)); a.Vec = L::vof(bits(r, N)); p.push_back(a); }
        BA big = dirty<BA>(ds); lib([&] { f(p, &big); });
        BM want; want.n = N * K; BV v;
        for (int k = 0; k < K; k++) { BM m = L::bm(p[(size_t)k].Mat); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) want.b[k * N + i][k * N + j] = m.b[i][j]; for (auto b : L::bv(p[(size_t)k].Vec)) v.push_back(b); }
        if (!same(BIG::bm(big.Mat), want) || BIG::bv(big.Vec) != v) violate("wrong-block-sum", "affinecom of %d maps of size %d is not their block diagonal sum", K, N);
    }
};
struct Slot { W<4> a; W<8> b; W<16> c; W<32> d; W<64> e; W<128> f; };
void do_op(Slot &s, const Op &o, int idx) {
    sim_set_op(idx); S->ctr[C_OPS]++;
    if (o.name == "seed") { unsigned v = (unsigned)o.get("v"); lib([&] { SetRandSeed(v); }); return; }
    uint64_t ds = (uint64_t)o.get("seed"); Rng r(ds + 3);
    if (o.name == "com") {
        int k = (int)o.get("n") % 7;
        if (k == 0) Com<8, 4>().run<T<32>>(r, ds, [](auto &p, Aff32 *x) { affinecomM8to32(p[0], p[1], p[2], p[3], x); });
        else if (k == 1) Com<16, 4>().run<T<64>>(r, ds, [](auto &p, Aff64 *x) { affinecomM16to64(p[0], p[1], p[2], p[3], x); });
        else if (k == 2) Com<8, 8>().run<T<64>>(r, ds, [](auto &p, Aff64 *x) { affinecomM8to64(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], x); });
        else if (k == 3) Com<32, 4>().run<T<128>>(r, ds, [](auto &p, Aff128 *x) { affinecomM32to128(p[0], p[1], p[2], p[3], x); });
        else if (k == 4) Com<8, 16>().run<T<128>>(r, ds, [](auto &p, Aff128 *x) { affinecomM8to128(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], x); });
        else if (k == 5) Com<16, 8>().run<T<128>>(r, ds, [](auto &p, Aff128 *x) { affinecomM16to128(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], x); });
        else {
            BM x = draw(r, 4, 0), y = draw(r, 4, 0); M4 a = T<4>::of(x), b = T<4>::of(y); M8 c = dirty<M8>(ds); lib([&] { MatrixcomM4to8(a, b, &c); });
            BM w; w.n = 8; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { w.b[i][j] = x.b[i][j]; w.b[4 + i][4 + j] = y.b[i][j]; }
            if (!same(T<8>::bm(c), w)) violate("wrong-block-sum", "MatrixcomM4to8");
        }
        ev("com %d", k); sig(mix64(99, (uint64_t)k)); return;
    }
    if (o.name == "perm") {
        int n = o.get("n") & 1 ? 256 : 16; Buf p(rbytes(ds, (size_t)n)), q(rbytes(ds + 1, (size_t)n));
        lib([&] { if (n == 16) genPermutation4(p.p, q.p); else genPermutation8(p.p, q.p); });
        p.check("permutation"); q.check("inverse permutation");
        for (int i = 0; i < n; i++) if (p.p[i] >= n || q.p[p.p[i]] != i || q.p[i] >= n || p.p[q.p[i]] != i) violate("not-inverse", "genPermutation: entry %d of %d: the tables are not inverse permutations", i, n);
        evhash("perm", p.p, (size_t)n); sig(mix64(98, (uint64_t)n)); return;
    }
    switch (o.get("n")) { case 4: s.a.op(o); break; case 8: s.b.op(o); break; case 16: s.c.op(o); break; case 32: s.d.op(o); break; case 64: s.e.op(o); break; case 128: s.f.op(o); break; }
}
void exec(const Plan &p, int start) {
    static Slot sl[4];
    if (p.e("conc")) {
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t) mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]); fs.push_back([&, t, mine] { for (int i : mine) do_op(sl[t], p.ops[(size_t)i], i); });
        }
        run_concurrent(fs, ops);
    } else for (size_t i = (size_t)start; i < p.ops.size(); i++) do_op(sl[p.ops[i].get("slot") & 3], p.ops[i], (int)i);
}
void gen(Rng &r, Plan &p) {
    static const int sz[] = {4, 4, 8, 8, 16, 32, 32, 64, 128};
    int n = (int)r.range(4, 30), slots = (int)r.range(1, 3);
    p.env["randmode"] = r.chance(0.6) ? 0 : r.range(1, 2);
    if (r.chance(0.5)) p.add("seed").set("v", r.chance(0.5) ? (int64_t)(r.next() & 0xffffffffu) : r.range(0, 1) ? 0xffffffffll - r.range(0, 600) : 0);
    for (int i = 0; i < n; i++) {
        int x = (int)r.range(0, 19); Op &o = p.add(x < 7 ? "pair" : x < 11 ? "aff" : x < 14 ? "inv" : x < 16 ? "alg" : x < 18 ? "perm" : "com");
        o.set("slot", r.range(0, slots - 1)).set("n", x < 16 ? sz[r.range(0, 8)] : r.range(0, 6)).set("shape", r.range(0, 6)).set("seed", (int64_t)(r.next() >> 16));
    }
    p.env["conc"] = slots > 1 && r.chance(0.4);
}
RegMod r20(Module{"P20", gen, exec, "s", 3});
}
