// Access to the library under test and shared helpers of the property modules.
#pragma once
#include "core.h"
#include "refs.h"
#include <memory>
extern "C" {
#include <wbcrypto/aes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/sm3.h>
#include <wbcrypto/wbaes.h>
#include <wbcrypto/wbsm4.h>
#include <wbcrypto/se_wbsm4.h>
#include <wbcrypto/wbaes_wbgcm_ee.h>
#include <wbcrypto/wbaes_wbgcm_mask.h>
#include <wbcrypto/fpe.h>
#include <wbcrypto/fpe_app.h>
#include <wbcrypto/utils.h>
#include <wbcrypto/modes.h>
}
extern const char *kind_name[NKIND];

// buffer of exactly n bytes; writes outside it are detected (ASan red zones or canaries)
struct Buf {
    u8 *base = nullptr, *p = nullptr; size_t n = 0; size_t pad = 0;
    explicit Buf(size_t n, int align = 0);
    explicit Buf(const Bytes &b, int align = 0);
    ~Buf();
    Buf(const Buf &) = delete;
    void check(const char *what) const;
    Bytes bytes() const { return Bytes(p, p + n); }
};
struct Key { int kind; Bytes k16; void *ctx; void *ctx2; std::shared_ptr<Block> blk; };   // ctx2: decryption direction (white-box SM4) or MASK decryption tables
// AES and SM4 contexts are made by the library on first use (no faults armed), white-box ones come from the pool
Key &get_key(int kind, int idx);
// the slot's own AES, SM4 or white-box AES context: how 1 gives it another key in place (the address stays), how 2 frees it first
Key &own_key(int slot, int kind, int idx, int how);
Bytes key_bytes(int kind, int idx, bool raw);              // raw: the bytes given to the library (1..32), else padded to 16
block128_f block_fn(int kind);
void eq(const char *cls, const Bytes &got, const Bytes &want, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
int lenpick(Rng &r, int max);                              // biased length 0..max
template <class F> auto call(F f) { decltype(f()) r{}; lib([&] { r = f(); }); return r; }
template <class F> auto callq(F f) { decltype(f()) r{}; lib_quiet([&] { r = f(); }); return r; }
