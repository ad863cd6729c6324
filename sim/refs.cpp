#include "refs.h"
#include <openssl/evp.h>
#include <openssl/bn.h>
#include <cmath>
#define OSSL(x) do { if ((x) <= 0) { fprintf(stderr, "openssl reference failed: %s\n", #x); _Exit(78); } } while (0)

bool is_sm4(int k) { return k == KSM4 || k == KWBSM4; }
Bytes pad_key(const Bytes &k) { Bytes r(k.begin(), k.begin() + (k.size() > 16 ? 16 : k.size())); u8 p = (u8)(16 - r.size()); while (r.size() < 16) r.push_back(p); return r; }
static const EVP_CIPHER *ecb(int kind) { static const EVP_CIPHER *a = EVP_aes_128_ecb(), *s = EVP_sm4_ecb(); return is_sm4(kind) ? s : a; }
Block::Block(int k, const Bytes &ky) : kind(k), key(ky) {
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y = EVP_CIPHER_CTX_new();
    OSSL(EVP_EncryptInit_ex(x, ecb(k), nullptr, key.data(), nullptr)); EVP_CIPHER_CTX_set_padding(x, 0);
    OSSL(EVP_DecryptInit_ex(y, ecb(k), nullptr, key.data(), nullptr)); EVP_CIPHER_CTX_set_padding(y, 0);
    e = x; d = y;
}
Block::~Block() { EVP_CIPHER_CTX_free((EVP_CIPHER_CTX *)e); EVP_CIPHER_CTX_free((EVP_CIPHER_CTX *)d); }
void Block::enc(const u8 in[16], u8 out[16]) const { int n; u8 t[32]; OSSL(EVP_EncryptUpdate((EVP_CIPHER_CTX *)e, t, &n, in, 16)); memcpy(out, t, 16); }
void Block::dec(const u8 in[16], u8 out[16]) const { int n; u8 t[32]; OSSL(EVP_DecryptUpdate((EVP_CIPHER_CTX *)d, t, &n, in, 16)); memcpy(out, t, 16); }

typedef unsigned __int128 u128;
static u128 ld(const u8 *p) { u128 v = 0; for (int i = 0; i < 16; i++) v = v << 8 | p[i]; return v; }
static void stv(u128 v, u8 *p) { for (int i = 15; i >= 0; i--) { p[i] = (u8)v; v >>= 8; } }
static u128 mul(u128 x, u128 y) {
    u128 z = 0, v = y; const u128 R = (u128)0xe1 << 120;
    for (int i = 127; i >= 0; i--) {
        if ((x >> i) & 1) z ^= v;
        v = (v & 1) ? (v >> 1) ^ R : v >> 1;
    }
    return z;
}
void gf_mul(const u8 a[16], const u8 b[16], u8 out[16]) { stv(mul(ld(a), ld(b)), out); }
void gf_inv(const u8 a[16], u8 out[16]) {           // a^(2^128-2)
    u128 x = ld(a), r = (u128)1 << 127, s = x;
    for (int i = 0; i < 127; i++) { s = mul(s, s); r = mul(r, s); }
    stv(r, out);
}
void GcmRef::init(const Block *blk) { b = blk; u8 z[16] = {0}; b->enc(z, H); alen = clen = 0; memset(X, 0, 16); memset(J0, 0, 16); memset(y, 0, 16); }
// multiplication by a fixed H through per-byte tables (long inputs only)
struct HTab { u128 h = 0; bool ok = false; std::vector<u128> t; };
static HTab &htab(u128 h) {
    static HTab c[4]; static int nx;
    for (auto &e : c) if (e.ok && e.h == h) return e;
    HTab &e = c[nx++ & 3]; e.h = h; e.ok = true; e.t.assign(16 * 256, 0);
    for (int i = 0; i < 16; i++) {
        u128 *row = &e.t[(size_t)i * 256];
        for (int b = 0; b < 8; b++) row[1 << b] = mul((u128)1 << (120 - 8 * i + b), h);
        for (int v = 1; v < 256; v++) row[v] = row[v & (v - 1)] ^ row[v & -v];
    }
    return e;
}
static void ghash(u8 X[16], const u8 H[16], const u8 *p, size_t n) {
    if (n > 1024) {
        HTab &t = htab(ld(H));
        for (size_t i = 0; i < n; i += 16) {
            u128 z = 0;
            for (size_t j = 0; j < 16; j++) z ^= t.t[j * 256 + (u8)(X[j] ^ (i + j < n ? p[i + j] : 0))];
            stv(z, X);
        }
        return;
    }
    for (size_t i = 0; i < n; i += 16) { for (size_t j = 0; j < 16 && i + j < n; j++) X[j] ^= p[i + j]; gf_mul(X, H, X); }
}
static void lenblk(uint64_t a, uint64_t c, u8 o[16]) { for (int i = 0; i < 8; i++) { o[7 - i] = (u8)(a >> (8 * i)); o[15 - i] = (u8)(c >> (8 * i)); } }
void GcmRef::setiv(const Bytes &iv) {
    alen = clen = 0; memset(X, 0, 16);
    memset(J0, 0, 16);
    if (iv.size() == 12) { memcpy(J0, iv.data(), 12); J0[15] = 1; }
    else { ghash(J0, H, iv.data(), iv.size()); u8 l[16]; lenblk(0, (uint64_t)iv.size() * 8, l); ghash(J0, H, l, 16); }
    memcpy(y, J0, 16);
}
void GcmRef::aad(const Bytes &a) { alen = a.size(); ghash(X, H, a.data(), a.size()); }
Bytes GcmRef::crypt(bool enc, const Bytes &in) {
    Bytes out(in.size());
    const size_t BAT = 4096; u8 cb[BAT], k[BAT + 32];
    for (size_t i = 0; i < in.size(); i += BAT) {
        size_t q = std::min(BAT, (in.size() - i + 15) / 16 * 16);
        for (size_t a = 0; a < q; a += 16) {
            uint32_t c = (uint32_t)y[12] << 24 | (uint32_t)y[13] << 16 | (uint32_t)y[14] << 8 | y[15]; c++;
            y[12] = (u8)(c >> 24); y[13] = (u8)(c >> 16); y[14] = (u8)(c >> 8); y[15] = (u8)c;
            memcpy(cb + a, y, 16);
        }
        int l; OSSL(EVP_EncryptUpdate((EVP_CIPHER_CTX *)b->e, k, &l, cb, (int)q));
        for (size_t j = 0; j < q && i + j < in.size(); j++) out[i + j] = in[i + j] ^ k[j];
    }
    ghash(X, H, enc ? out.data() : in.data(), in.size());
    clen += in.size();
    return out;
}
Bytes GcmRef::tag() const {
    u8 x[16]; memcpy(x, X, 16); u8 l[16]; lenblk(alen * 8, clen * 8, l);
    for (int i = 0; i < 16; i++) x[i] ^= l[i];
    gf_mul(x, H, x);
    u8 e[16]; b->enc(J0, e);
    Bytes t(16); for (int i = 0; i < 16; i++) t[i] = x[i] ^ e[i];
    return t;
}
Bytes GcmRef::iv_for_counter(const u8 j0[16]) {
    u8 inv[16], t[16], l[16]; gf_inv(H, inv); gf_mul(j0, inv, t); lenblk(0, 128, l);
    for (int i = 0; i < 16; i++) t[i] ^= l[i];
    gf_mul(t, inv, t);
    return Bytes(t, t + 16);
}
Bytes gcm_seal(const Block &b, const Bytes &iv, const Bytes &aad, const Bytes &pt, Bytes &tag) {
    GcmRef g; g.init(&b); g.setiv(iv); g.aad(aad); Bytes c = g.crypt(true, pt); tag = g.tag(); return c;
}
Bytes cbc_ref_enc(const Block &b, const Bytes &iv, const Bytes &p) {
    Bytes o(p.size()); u8 v[16]; memcpy(v, iv.data(), 16);
    for (size_t i = 0; i + 16 <= p.size(); i += 16) { for (int j = 0; j < 16; j++) v[j] ^= p[i + j]; b.enc(v, v); memcpy(&o[i], v, 16); }
    return o;
}
Sm3Ref::Sm3Ref() { c = EVP_MD_CTX_new(); reset(); }
Sm3Ref::~Sm3Ref() { EVP_MD_CTX_free((EVP_MD_CTX *)c); }
void Sm3Ref::reset() { OSSL(EVP_DigestInit_ex((EVP_MD_CTX *)c, EVP_sm3(), nullptr)); }
void Sm3Ref::update(const void *p, size_t n) { OSSL(EVP_DigestUpdate((EVP_MD_CTX *)c, p, n)); }
Bytes Sm3Ref::final() { Bytes o(32); unsigned n; OSSL(EVP_DigestFinal_ex((EVP_MD_CTX *)c, o.data(), &n)); return o; }
Bytes sm3_ref(const Bytes &m) { Sm3Ref r; r.update(m.data(), m.size()); return r.final(); }

// ------------------------------------------------------------------ FF1 (NIST SP 800-38G) and the library's FF3 layout
struct Num {
    BIGNUM *v; Num() { v = BN_new(); } ~Num() { BN_free(v); } Num(const Num &) = delete;
};
static BN_CTX *bctx() { static BN_CTX *c = BN_CTX_new(); return c; }
static int dv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char dc(unsigned d) { return d < 10 ? (char)('0' + d) : (char)('a' + d - 10); }
static void str2num(const std::string &s, unsigned radix, BIGNUM *v) { BN_zero(v); for (char c : s) { BN_mul_word(v, radix); BN_add_word(v, (BN_ULONG)dv(c)); } }
static std::string num2str(const BIGNUM *v, unsigned radix, size_t m) {
    std::string s(m, '0'); BIGNUM *t = BN_dup(v);
    for (size_t i = m; i-- > 0;) s[i] = dc((unsigned)BN_div_word(t, radix));
    BN_free(t); return s;
}
static std::string rev(std::string s) { for (size_t i = 0; i < s.size() / 2; i++) std::swap(s[i], s[s.size() - 1 - i]); return s; }
std::string ff1_ref(const Block &bl, bool enc, const std::string &x, unsigned radix, const Bytes &T) {
    size_t n = x.size(), u = n / 2, v = n - u;
    std::string A = x.substr(0, u), B = x.substr(u);
    Num p; BN_one(p.v); for (size_t i = 0; i < v; i++) BN_mul_word(p.v, radix);
    Num pm1; BN_copy(pm1.v, p.v); BN_sub_word(pm1.v, 1);
    int b = (BN_num_bits(pm1.v) + 7) / 8;
    int d = 4 * ((b + 3) / 4) + 4;
    size_t t = T.size();
    u8 Pb[16] = {1, 2, 1, (u8)(radix >> 16), (u8)(radix >> 8), (u8)radix, 10, (u8)u, (u8)(n >> 24), (u8)(n >> 16), (u8)(n >> 8), (u8)n, (u8)(t >> 24), (u8)(t >> 16), (u8)(t >> 8), (u8)t};
    for (int r = 0; r < 10; r++) {
        int i = enc ? r : 9 - r;
        size_t m = i % 2 == 0 ? u : v;
        Bytes Q(T); size_t pad = (16 - (t + (size_t)b + 1) % 16) % 16; Q.insert(Q.end(), pad, 0); Q.push_back((u8)i);
        Num nb; str2num(enc ? B : A, radix, nb.v);
        Bytes bb((size_t)b); BN_bn2binpad(nb.v, bb.data(), b); Q.insert(Q.end(), bb.begin(), bb.end());
        u8 R[16]; bl.enc(Pb, R);
        for (size_t k = 0; k + 16 <= Q.size(); k += 16) { for (int j = 0; j < 16; j++) R[j] ^= Q[k + j]; bl.enc(R, R); }
        Bytes Sx(R, R + 16);
        for (int k = 1; (int)Sx.size() < d; k++) { u8 z[16]; memcpy(z, R, 16); z[12] ^= (u8)(k >> 24); z[13] ^= (u8)(k >> 16); z[14] ^= (u8)(k >> 8); z[15] ^= (u8)k; bl.enc(z, z); Sx.insert(Sx.end(), z, z + 16); }
        Num y, mod, c; BN_bin2bn(Sx.data(), d, y.v);
        BN_one(mod.v); for (size_t k = 0; k < m; k++) BN_mul_word(mod.v, radix);
        str2num(enc ? A : B, radix, c.v);
        if (enc) BN_mod_add(c.v, c.v, y.v, mod.v, bctx()); else BN_mod_sub(c.v, c.v, y.v, mod.v, bctx());
        std::string C = num2str(c.v, radix, m);
        if (enc) { A = B; B = C; } else { B = A; A = C; }
    }
    return A + B;
}
std::string ff3_ref(const Block &bl, bool enc, const std::string &x, unsigned radix, const Bytes &T0) {
    Bytes T(T0); if (T.size() < 8) T.resize(8, 0);
    size_t n = x.size(), u = (n + 1) / 2, v = n - u;
    std::string A = x.substr(0, u), B = x.substr(u);
    for (int r = 0; r < 8; r++) {
        int i = enc ? r : 7 - r;
        size_t m = i % 2 == 0 ? u : v;
        u8 Pb[16] = {0}; memcpy(Pb, i % 2 == 0 ? &T[4] : &T[0], 4); Pb[3] ^= (u8)i;
        Num nb; str2num(rev(enc ? B : A), radix, nb.v);
        if (BN_num_bytes(nb.v) > 12) return "";                    // outside FF3's domain
        BN_bn2binpad(nb.v, Pb + 4, 12);
        u8 q[16], s[16], sr[16]; for (int j = 0; j < 16; j++) q[j] = Pb[15 - j];
        bl.enc(q, s); for (int j = 0; j < 16; j++) sr[j] = s[15 - j];
        Num y, mod, c; BN_bin2bn(sr, 16, y.v);
        BN_one(mod.v); for (size_t k = 0; k < m; k++) BN_mul_word(mod.v, radix);
        str2num(rev(enc ? A : B), radix, c.v);
        if (enc) BN_mod_add(c.v, c.v, y.v, mod.v, bctx()); else BN_mod_sub(c.v, c.v, y.v, mod.v, bctx());
        std::string C = rev(num2str(c.v, radix, m));
        if (enc) { A = B; B = C; } else { B = A; A = C; }
    }
    return A + B;
}
