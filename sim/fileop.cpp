#include "fileop.h"
bool file_init(FileCtx &c, Key &k, bool dec) {
    c.kind = k.kind; c.dec = dec;
    switch (k.kind) {
        case KAES: c.h = WBCRYPTO_aes_gcmfile_init((WBCRYPTO_aes_context *)k.ctx); break;
        case KSM4: c.h = WBCRYPTO_sm4_gcmfile_init((WBCRYPTO_sm4_context *)k.ctx); break;
        case KWBAES: c.h = WBCRYPTO_wbaes_gcmfile_init((WBCRYPTO_wbaes_context *)k.ctx); break;
        case KWBSM4: c.h = WBCRYPTO_wbsm4_gcmfile_init((WBCRYPTO_wbsm4_context *)k.ctx); break;
        case KEE: c.h = WBCRYPTO_wbaes_wbgcm_ee_init((WBCRYPTO_wbaes_wbgcm_ee_context *)k.ctx); break;
        default: c.h = WBCRYPTO_wbaes_wbgcm_mask_init((WBCRYPTO_wbaes_wbgcm_mask_context *)(dec ? k.ctx2 : k.ctx)); break;
    }
    return c.h != nullptr;
}
int file_setiv(FileCtx &c, const u8 *iv, size_t n) {
    if (c.kind == KEE) return WBCRYPTO_wbaes_wbgcm_ee_setiv((WBCRYPTO_wbgcm_ee_context *)c.h, iv, n);
    if (c.kind == KMASK) return WBCRYPTO_wbaes_wbgcm_mask_setiv((WBCRYPTO_wbgcm_mask_context *)c.h, iv, n);
    return WBCRYPTO_gcmfile_setiv((WBCRYPTO_gcmfile_context *)c.h, iv, n);
}
int file_aad(FileCtx &c, const u8 *a, size_t n) {
    if (c.kind == KEE) return WBCRYPTO_wbaes_wbgcm_ee_aad((WBCRYPTO_wbgcm_ee_context *)c.h, a, n);
    if (c.kind == KMASK) return WBCRYPTO_wbaes_wbgcm_mask_aad((WBCRYPTO_wbgcm_mask_context *)c.h, a, n);
    return WBCRYPTO_gcmfile_aad((WBCRYPTO_gcmfile_context *)c.h, a, n);
}
int file_run(FileCtx &c, char *in, char *out) {
    if (c.kind == KEE) return c.dec ? WBCRYPTO_wbaes_wbgcmfile_ee_decrypt((WBCRYPTO_wbgcm_ee_context *)c.h, in, out) : WBCRYPTO_wbaes_wbgcmfile_ee_encrypt((WBCRYPTO_wbgcm_ee_context *)c.h, in, out);
    if (c.kind == KMASK) return c.dec ? WBCRYPTO_wbaes_wbgcmfile_mask_decrypt((WBCRYPTO_wbgcm_mask_context *)c.h, in, out) : WBCRYPTO_wbaes_wbgcmfile_mask_encrypt((WBCRYPTO_wbgcm_mask_context *)c.h, in, out);
    return c.dec ? WBCRYPTO_gcmfile_decrypt((WBCRYPTO_gcmfile_context *)c.h, in, out) : WBCRYPTO_gcmfile_encrypt((WBCRYPTO_gcmfile_context *)c.h, in, out);
}
void file_free(FileCtx &c) {
    if (!c.h) return;
    if (c.kind == KEE) WBCRYPTO_wbaes_wbgcm_ee_free((WBCRYPTO_wbgcm_ee_context *)c.h);
    else if (c.kind == KMASK) WBCRYPTO_wbaes_wbgcm_mask_free((WBCRYPTO_wbgcm_mask_context *)c.h);
    else WBCRYPTO_gcmfile_free((WBCRYPTO_gcmfile_context *)c.h);
    c.h = nullptr;
}
Bytes file_image(Key &k, const Bytes &iv, bool hasaad, const Bytes &aad, const Bytes &pt) {
    Bytes ct, tag(16);
    if (k.kind != KMASK) ct = gcm_seal(*k.blk, iv, hasaad ? aad : Bytes(), pt, tag);
    else {
        ct.resize(pt.size());
        bool ok = false;
        Bytes in = pt; if (in.empty()) in.resize(1);
        Bytes o(ct.size() + 1);
        lib_quiet([&] {
            auto *g = WBCRYPTO_wbaes_wbgcm_mask_init((WBCRYPTO_wbaes_wbgcm_mask_context *)k.ctx);
            if (!g) return;
            ok = WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv.data(), iv.size()) == 1;
            if (hasaad) { Bytes a = aad; a.resize(a.size() + 1); ok = ok && WBCRYPTO_wbaes_wbgcm_mask_aad(g, a.data(), aad.size()) == 1; }
            if (!pt.empty()) ok = ok && WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, in.data(), pt.size(), o.data(), pt.size()) == 1;
            ok = ok && WBCRYPTO_wbaes_wbgcm_mask_finish(g, tag.data(), 16) == 1;
            WBCRYPTO_wbaes_wbgcm_mask_free(g);
        });
        if (!ok) violate("setup", "WBGCM-MASK in-memory encryption fails");
        ct.assign(o.begin(), o.begin() + (long)pt.size());
    }
    Bytes f = tag;
    for (int i = 0; i < 8; i++) f.push_back(i < 4 ? (u8)(pt.size() >> (8 * i)) : 0);
    f.insert(f.end(), ct.begin(), ct.end());
    return f;
}
bool file_authentic(Key &k, const Bytes &iv, bool hasaad, const Bytes &aad, const Bytes &f, Bytes &pt) {
    if (f.size() < 24) return false;
    uint32_t n = f[16] | f[17] << 8 | f[18] << 16 | (uint32_t)f[19] << 24;
    if (n != f.size() - 24) return false;
    GcmRef g; g.init(k.blk.get()); g.setiv(iv); if (hasaad) g.aad(aad);
    pt = g.crypt(false, Bytes(f.begin() + 24, f.end()));
    Bytes t = g.tag();
    return std::equal(t.begin(), t.end(), f.begin());
}
