// Reference models (independent of /repo): OpenSSL EVP block ciphers and digests, own GCM, CBC, FF1, FF3, FPE-MAC.
#pragma once
#include "core.h"

struct Block {                      // reference block cipher of a key kind
    int kind; Bytes key;
    Block(int kind, const Bytes &key);
    ~Block();
    Block(const Block &) = delete;
    void enc(const u8 in[16], u8 out[16]) const;
    void dec(const u8 in[16], u8 out[16]) const;
    void *e, *d;
};
bool is_sm4(int kind);
Bytes pad_key(const Bytes &k);                   // library's documented key padding (PKCS#7 to 16, truncation)
void gf_mul(const u8 a[16], const u8 b[16], u8 out[16]);
void gf_inv(const u8 a[16], u8 out[16]);
struct GcmRef {
    const Block *b = nullptr; u8 H[16], J0[16], y[16], X[16]; uint64_t alen = 0, clen = 0;
    void init(const Block *blk);
    void setiv(const Bytes &iv);
    void aad(const Bytes &a);
    Bytes crypt(bool enc, const Bytes &in);      // all chunks but the last of whole blocks
    Bytes tag() const;
    Bytes iv_for_counter(const u8 j0[16]);       // 16-byte IV with the given J0
};
Bytes gcm_seal(const Block &b, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &tag);
Bytes cbc_ref_enc(const Block &b, const Bytes &iv, const Bytes &padded);
Bytes sm3_ref(const Bytes &m);
struct Sm3Ref { void *c; Sm3Ref(); ~Sm3Ref(); void reset(); void update(const void *p, size_t n); Bytes final(); };

// FPE: values of numeral strings as big numbers
std::string ff1_ref(const Block &b, bool enc, const std::string &x, unsigned radix, const Bytes &tweak);
std::string ff3_ref(const Block &b, bool enc, const std::string &x, unsigned radix, const Bytes &tweak);
