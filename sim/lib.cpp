#include "lib.h"
#include <stdarg.h>
const char *kind_name[NKIND] = {"aes", "sm4", "wbaes", "wbsm4", "ee", "mask"};
#if defined(__SANITIZE_ADDRESS__)
static const size_t CB = 0;
#else
static const size_t CB = 64;
#endif
Buf::Buf(size_t n_, int align) : n(n_), pad(CB + (align & 15)) {
    base = (u8 *)malloc(pad + n + CB); memset(base, 0xC7, pad + n + CB); p = base + pad;
    if (!CB && !pad) p = base;
}
Buf::Buf(const Bytes &b, int align) : Buf(b.size(), align) { if (n) memcpy(p, b.data(), n); }
Buf::~Buf() { free(base); }
void Buf::check(const char *what) const {
    for (size_t i = 0; i < pad; i++) if (base[i] != 0xC7) violate("buffer-underflow", "%s: byte %zd before a %zu-byte caller buffer was overwritten", what, (ssize_t)i - (ssize_t)pad, n);
    for (size_t i = 0; i < CB; i++) if (p[n + i] != 0xC7) violate("buffer-overflow", "%s: byte %zu past a %zu-byte caller buffer was overwritten", what, i, n);
}
void eq(const char *cls, const Bytes &got, const Bytes &want, const char *fmt, ...) {
    if (got == want) return;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    violate(cls, "%s: differs at byte %zu (got %zu bytes, expected %zu): got %s expected %s", b, i, got.size(), want.size(),
            hex(Bytes(got.begin() + i, got.end()), 16).c_str(), hex(Bytes(want.begin() + i, want.end()), 16).c_str());
}
int lenpick(Rng &r, int max) {
    int v;
    switch (r.range(0, 6)) {
        case 0: v = (int)r.range(0, 17); break;
        case 1: v = (int)r.range(0, 12) * 16; break;
        case 2: v = (int)(r.range(1, 40) * 128 + r.range(-17, 17)); break;
        case 3: v = (int)(r.range(1, 8) * 4096 + r.range(-20, 20)); break;
        default: v = (int)r.range(0, 300);
    }
    if (v < 0) v = 0;
    if (v > max) v = (int)r.range(0, max);
    return v;
}
Bytes key_bytes(int kind, int idx, bool raw) {
    uint64_t s = mix64(0x4b4559, (uint64_t)(kind * 64 + idx));
    static const int L[] = {16, 16, 5, 32, 1, 15, 17, 24};
    int n = L[(unsigned)(idx + (kind >= KWBAES ? 0 : 1)) % 8];
    Bytes k = rbytes(s, (size_t)n);
    return raw ? k : pad_key(k);
}
block128_f block_fn(int kind) {
    switch (kind) {
        case KAES: return (block128_f)WBCRYPTO_aes_encrypt;
        case KSM4: return (block128_f)WBCRYPTO_sm4_encrypt;
        case KWBAES: return (block128_f)WBCRYPTO_wbaes_encrypt;
        default: return (block128_f)WBCRYPTO_wbsm4_encrypt;
    }
}
void pool_gen(int kind, int idx, PoolEntry &e) {
    Bytes k = key_bytes(kind, idx, true);
    if (kind == KAES || kind == KSM4) { e.state = 1; return; }
    if (kind == KWBAES) {
        auto *c = WBCRYPTO_wbaes_context_init(); if (!c) return;
        if (WBCRYPTO_wbaes_gen_table(c, k.data(), k.size()) != 1) return;
        e.a = c;
    } else if (kind == KWBSM4) {
        auto *c = WBCRYPTO_wbsm4_context_init(1, idx + 1); auto *d = WBCRYPTO_wbsm4_context_init(0, 1 + (idx * 2) % 4);
        if (!c || !d || WBCRYPTO_wbsm4_gen_table(c, k.data(), k.size()) != 1 || WBCRYPTO_wbsm4_gen_table(d, k.data(), k.size()) != 1) return;
        e.a = c; e.b = d;
    } else if (kind == KEE) {
        auto *c = (WBCRYPTO_wbaes_wbgcm_ee_context *)sim_malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context));
        WBCRYPTO_wbaes_wbgcm_ee_gen_table(c, k.data(), k.size());
        e.a = c;
    } else if (kind == KMASK) {
        auto *c = WBCRYPTO_wbaes_wbgcm_mask_init_table(), *d = WBCRYPTO_wbaes_wbgcm_mask_init_table();
        if (!c || !d) return;
        WBCRYPTO_wbaes_wbgcm_mask_gen_table(c, d, k.data(), k.size());
        e.a = c; e.b = d;
    }
    e.state = 1;
}
Key &get_key(int kind, int idx) {
    static std::map<std::pair<int, int>, std::shared_ptr<Key>> m;
    idx = (unsigned)idx % POOLIDX;
    auto &s = m[{kind, idx}];
    if (!s) {
        s = std::make_shared<Key>();
        s->kind = kind; s->k16 = key_bytes(kind, idx, false); s->blk = std::make_shared<Block>(kind, s->k16);
        Bytes raw = key_bytes(kind, idx, true);
        if (kind == KAES) {
            auto *c = callq([] { return WBCRYPTO_aes_context_init(); });
            if (!c || callq([&] { return WBCRYPTO_aes_init_key(c, raw.data(), raw.size()); }) != 1) violate("setup", "AES key setup of a %zu-byte key fails", raw.size());
            s->ctx = c;
        } else if (kind == KSM4) {
            auto *c = callq([] { return WBCRYPTO_sm4_context_init(); });
            if (!c || callq([&] { return WBCRYPTO_sm4_init_key(c, raw.data(), raw.size()); }) != 1) violate("setup", "SM4 key setup of a %zu-byte key fails", raw.size());
            s->ctx = c;
        } else { const PoolEntry &e = pool_get(kind, idx); if (!e.state) { fprintf(stderr, "harness error: pool entry %d/%d was not made\n", kind, idx); _Exit(78); } s->ctx = e.a; s->ctx2 = e.b; }
    }
    return *s;
}
Key &own_key(int slot, int kind, int idx, int how) {
    static std::map<std::pair<int, int>, Key> m;
    idx &= 63; if (kind == KWBAES) idx %= POOLIDX; else if (kind != KAES && kind != KSM4) return get_key(kind, idx);
    Key &k = m[{slot, kind}];
    if (k.ctx && how == 2) {
        void *c = k.ctx; k.ctx = nullptr;
        lib_quiet([&] { if (kind == KAES) WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)c); else if (kind == KSM4) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)c); else WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)c); });
    }
    if (!k.ctx) k.ctx = callq([&]() -> void * { return kind == KAES ? (void *)WBCRYPTO_aes_context_init() : kind == KSM4 ? (void *)WBCRYPTO_sm4_context_init() : (void *)WBCRYPTO_wbaes_context_init(); });
    if (!k.ctx) violate("setup", "%s context_init returned NULL", kind_name[kind]);
    Bytes raw = key_bytes(kind, idx, true);
    if (kind == KWBAES) memcpy(k.ctx, get_key(kind, idx).ctx, sizeof(WBCRYPTO_wbaes_context));      // as after importing another key
    else if (callq([&] { return kind == KAES ? WBCRYPTO_aes_init_key((WBCRYPTO_aes_context *)k.ctx, raw.data(), raw.size()) : WBCRYPTO_sm4_init_key((WBCRYPTO_sm4_context *)k.ctx, raw.data(), raw.size()); }) != 1)
        violate("setup", "%s key setup of a %zu-byte key fails", kind_name[kind], raw.size());
    k.kind = kind; k.ctx2 = nullptr; k.k16 = key_bytes(kind, idx, false); k.blk = std::make_shared<Block>(kind, k.k16);
    return k;
}
