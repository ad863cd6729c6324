// P16 (threads on separate contexts) and P17 (failing allocations): self-contained jobs over every part of the API
#include "fileop.h"
namespace {
const char DIG[] = "0123456789abcdefghijklmnopqrstuvwxyz";
enum { J_BLK, J_CTX, J_CBC, J_GCM, J_WBG, J_SM3, J_FFX, J_APP, J_FILE, J_GEN, J_KEYF, J_KEYB, J_STORE, J_REF, NJ };
const char *jname[NJ] = {"blk", "ctx", "cbc", "gcm", "wbg", "sm3", "ffx", "app", "file", "gen", "keyf", "keyb", "store", "refused"};
bool g_p17, g_p19;
int faults() { return g_alloc_fail + g_hard_io; }
struct Prep { Bytes image; };
std::map<int, Prep> prep;
// A library call that may fail only if an allocation failed inside it; it is then repeated with memory available and must succeed.
template <class F> bool step(const char *what, F f, size_t sf = 24 << 10) {
    int af = faults(); bool ok = false; int64_t live = g_p19 ? sim_live(0, nullptr) : 0; int of = sim_open_files(); int64_t id = sim_alloc_id();
    lib([&] { ok = f(); }, sf);
    if (g_p19 && sim_open_files() != of) violate("file-leak", "%s %s and left %d file(s) open", what, ok ? "succeeded" : "failed", sim_open_files() - of);
    if (ok) { if (faults() != af) probe(20); return true; }
    if (faults() == af) violate("call-failed", "%s failed although no allocation and no I/O failed", what);
    if (g_p19) { std::string h; int64_t n = sim_live(0, nullptr); if (n > live) { sim_live(id, &h); violate("leak-on-failure", "%s failed and kept %lld block(s), e.g. %s", what, (long long)(n - live), h.c_str()); } }
    if (g_p19) clear_io_fault_flag();
    if (!g_p17) violate("call-failed", "%s failed", what);
    probe(21); ev("%s reports failure", what);
    lib_quiet([&] { ok = f(); }, sf);
    if (!ok) violate("retry-failed", "%s fails again after a failed allocation, with memory available", what);
    return false;
}
// A library call that has to refuse its input, with or without a fault; it keeps nothing and can be repeated.
template <class F> void refuse(const char *what, F f, size_t sf = 24 << 10) {
    for (int rep = 0; rep < 2; rep++) {
        bool ok = false; int64_t live = g_p19 ? sim_live(0, nullptr) : 0; int of = sim_open_files(); int64_t id = sim_alloc_id();
        if (rep) lib_quiet([&] { ok = f(); }, sf); else lib([&] { ok = f(); }, sf);
        if (ok) violate("bad-accepted", "%s succeeded", what);
        if (!g_p19) continue;
        if (sim_open_files() != of) violate("file-leak", "%s failed and left %d file(s) open", what, sim_open_files() - of);
        std::string h; int64_t n = sim_live(0, nullptr); if (n > live) { sim_live(id, &h); violate("leak-on-failure", "%s failed and kept %lld block(s), e.g. %s", what, (long long)(n - live), h.c_str()); }
    }
    if (g_p19) clear_io_fault_flag();
    probe(22);
}
struct Job {
    const Op &o; int idx, al; uint64_t seed; size_t n; Key *k = nullptr; Bytes data, iv;
    char w[120];
    Job(const Op &op, int i) : o(op), idx(i), al((int)op.get("al") & 15), seed((uint64_t)op.get("seed")), n((size_t)op.get("len")) {
        if (o.get("kind", -1) >= 0) k = &get_key((int)o.get("kind"), (int)o.get("key"));
        data = rbytes(seed, n); iv = rbytes(seed + 1, 12);
        snprintf(w, sizeof w, "%s", o.name.c_str());
    }
    void what(const char *s) { snprintf(w, sizeof w, "%s %s (%zu bytes)", k ? kind_name[k->kind] : "", s, n); }
    void blk() {
        what("block calls"); size_t m = std::min<size_t>(n / 16 + 1, 40); Bytes in = rbytes(seed, 16 * m), mid(16 * m), back(16 * m); int bad = 0;
        bool dec = k->kind != KWBAES;
        lib([&] { for (size_t i = 0; i < m; i++) {
            if ((*block_fn(k->kind))(&in[16 * i], &mid[16 * i], k->ctx) != 1) bad++;
            if (!dec) continue;
            int r = k->kind == KAES ? WBCRYPTO_aes_decrypt(&mid[16 * i], &back[16 * i], (WBCRYPTO_aes_context *)k->ctx) : k->kind == KSM4 ? WBCRYPTO_sm4_decrypt(&mid[16 * i], &back[16 * i], (WBCRYPTO_sm4_context *)k->ctx) : WBCRYPTO_wbsm4_decrypt(&mid[16 * i], &back[16 * i], (WBCRYPTO_wbsm4_context *)k->ctx2);
            if (r != 1) bad++;
        } });
        if (bad) violate("call-failed", "%s: a block call returned an error", w);
        Bytes want(16 * m); for (size_t i = 0; i < m; i++) k->blk->enc(&in[16 * i], &want[16 * i]);
        eq("wrong-result", mid, want, "%s: encryption", w);
        if (dec) eq("wrong-result", back, in, "%s: decryption", w);
    }
    void ctx() {                                           // own key context: init, key, encrypt, decrypt, free
        bool sm4 = o.get("alg") & 1; Bytes raw = rbytes(seed, 1 + n % 33); Block ref(sm4 ? KSM4 : KAES, pad_key(raw));
        snprintf(w, sizeof w, "%s context with a %zu-byte key", sm4 ? "sm4" : "aes", raw.size());
        Buf kb(raw, al); void *c = nullptr;
        step(w, [&] { c = sm4 ? (void *)WBCRYPTO_sm4_context_init() : (void *)WBCRYPTO_aes_context_init(); return c != nullptr; });
        for (int rep = 0; rep < 2; rep++) {
            step(w, [&] { return (sm4 ? WBCRYPTO_sm4_init_key((WBCRYPTO_sm4_context *)c, kb.p, kb.n) : WBCRYPTO_aes_init_key((WBCRYPTO_aes_context *)c, kb.p, kb.n)) == 1; });
            Buf in(rbytes(seed + 5, 16), al), out(16, al), back(16, al); int bad = 0;
            lib([&] {
                if (sm4) { bad += WBCRYPTO_sm4_encrypt(in.p, out.p, (WBCRYPTO_sm4_context *)c) != 1; bad += WBCRYPTO_sm4_decrypt(out.p, back.p, (WBCRYPTO_sm4_context *)c) != 1; }
                else { bad += WBCRYPTO_aes_encrypt(in.p, out.p, (WBCRYPTO_aes_context *)c) != 1; bad += WBCRYPTO_aes_decrypt(out.p, back.p, (WBCRYPTO_aes_context *)c) != 1; }
            });
            if (bad) violate("call-failed", "%s: a block call returned an error", w);
            Bytes want(16); ref.enc(in.p, want.data()); eq("wrong-result", out.bytes(), want, "%s: encryption", w); eq("wrong-result", back.bytes(), in.bytes(), "%s: decryption", w);
        }
        kb.check("key");
        lib([&] { if (sm4) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)c); else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)c); });
    }
    void cbc() {
        what("cbc"); Bytes iv16 = rbytes(seed + 1, 16); size_t pl = (n + 15) / 16 * 16; Bytes padded = data; padded.resize(pl, (u8)(pl - n));
        if (n && n % 16 == 0) data.back() = padded.back() = 0xAA;
        Buf bi(data, al), bo(pl, al), bb(pl, al); size_t use = 0;
        step("cbc encryption", [&] { Buf v(iv16); switch (k->kind) {
            case KAES: return WBCRYPTO_aes_cbc_encrypt(bi.p, n, bo.p, pl, &use, (WBCRYPTO_aes_context *)k->ctx, v.p) == 1;
            case KSM4: return WBCRYPTO_sm4_cbc_encrypt(bi.p, n, bo.p, pl, &use, (WBCRYPTO_sm4_context *)k->ctx, v.p) == 1;
            case KWBAES: return WBCRYPTO_wbaes_cbc_encrypt(bi.p, n, bo.p, pl, &use, (WBCRYPTO_wbaes_context *)k->ctx, v.p) == 1;
            default: return WBCRYPTO_wbsm4_cbc_encrypt(bi.p, n, bo.p, pl, &use, (WBCRYPTO_wbsm4_context *)k->ctx, v.p) == 1; } });
        bi.check("cbc input"); bo.check("cbc output");
        if (use != pl) violate("wrong-result", "%s: length %zu, expected %zu", w, use, pl);
        eq("wrong-result", bo.bytes(), cbc_ref_enc(*k->blk, iv16, padded), "%s: encryption", w);
        if (k->kind == KWBAES) return;
        step("cbc decryption", [&] { Buf v(iv16); switch (k->kind) {
            case KAES: return WBCRYPTO_aes_cbc_decrypt(bo.p, pl, bb.p, pl, &use, (WBCRYPTO_aes_context *)k->ctx, v.p) == 1;
            case KSM4: return WBCRYPTO_sm4_cbc_decrypt(bo.p, pl, bb.p, pl, &use, (WBCRYPTO_sm4_context *)k->ctx, v.p) == 1;
            default: return WBCRYPTO_wbsm4_cbc_decrypt(bo.p, pl, bb.p, pl, &use, (WBCRYPTO_wbsm4_context *)k->ctx2, v.p) == 1; } });
        bb.check("cbc output");
        if (use != n) violate("wrong-result", "%s: decrypted length %zu", w, use);
        eq("wrong-result", Bytes(bb.p, bb.p + n), data, "%s: decryption", w);
    }
    void gcm() {
        what("gcm"); Bytes aad = rbytes(seed + 2, (size_t)o.get("alen")), tag; Bytes ct = gcm_seal(*k->blk, iv, aad, data, tag);
        WBCRYPTO_gcm_context *g = nullptr; int par = (int)o.get("par");
        step("gcm init", [&] { g = WBCRYPTO_gcm_init(k->ctx, block_fn(k->kind)); return g != nullptr; });
        for (int dir = 0; dir < 2; dir++) {
            const Bytes &src = dir ? ct : data, &dst = dir ? data : ct;
            for (int tries = 0;; tries++) {                // a message interrupted by a failed allocation starts again
                Buf bi(src, al), bo(n, al), ba(aad, al), bt(16, al); bool again = false;
                step("gcm setiv", [&] { Buf v(iv); return WBCRYPTO_gcm_setiv(g, v.p, v.n) == 1; });
                if (!aad.empty()) step("gcm aad", [&] { return WBCRYPTO_gcm_aad(g, ba.p, ba.n) == 1; });
                size_t cut = (size_t)o.get("cut") % (n / 16 + 1) * 16;
                for (int part = 0; part < 2 && !again; part++) {
                    size_t a = part ? cut : 0, m = part ? n - cut : cut; int af = faults(); int r = 0; bool pl = par >> (part + 2 * dir) & 1;
                    if (!m) continue;
                    auto f = [&] { r = pl ? (dir ? WBCRYPTO_gcm_parallel_decrypt(g, bi.p + a, m, bo.p + a, m) : WBCRYPTO_gcm_parallel_encrypt(g, bi.p + a, m, bo.p + a, m)) : (dir ? WBCRYPTO_gcm_decrypt(g, bi.p + a, m, bo.p + a, m) : WBCRYPTO_gcm_encrypt(g, bi.p + a, m, bo.p + a, m)); };
                    if (tries) lib_quiet(f); else lib(f);
                    bi.check("gcm input"); bo.check("gcm output");
                    if (r != 1) { if (faults() == af || !g_p17) violate(tries ? "retry-failed" : "call-failed", "%s: returned %d", w, r); probe(21); ev("gcm reports failure"); again = true; }
                }
                if (again) continue;
                step("gcm finish", [&] { return WBCRYPTO_gcm_finish(g, bt.p, 16) == 1; });
                eq("wrong-result", bo.bytes(), dst, "%s: %s", w, dir ? "decryption" : "encryption"); eq("wrong-result", bt.bytes(), tag, "%s: %s tag", w, dir ? "decryption" : "encryption");
                break;
            }
        }
        lib([&] { WBCRYPTO_gcm_free(g); });
    }
    void wbg() {
        what("wbgcm"); bool ee = k->kind == KEE; const Bytes &im = prep[idx].image; Bytes aad = rbytes(seed + 2, (size_t)o.get("alen")), tag(im.begin(), im.begin() + 16), ct(im.begin() + 24, im.end());
        for (int dir = 0; dir < 2; dir++) {
            FileCtx c; const Bytes &src = dir ? ct : data, &dst = dir ? data : ct; Buf bi(src, al), bo(n, al), ba(aad, al), bt(16, al);
            step("wbgcm init", [&] { return file_init(c, *k, dir); });
            step("wbgcm setiv", [&] { Buf v(iv); return file_setiv(c, v.p, v.n) == 1; });
            if (!aad.empty()) step("wbgcm aad", [&] { return file_aad(c, ba.p, ba.n) == 1; });
            auto *E = (WBCRYPTO_wbgcm_ee_context *)c.h; auto *M = (WBCRYPTO_wbgcm_mask_context *)c.h;
            if (n) step("wbgcm crypt", [&] { return (ee ? (dir ? WBCRYPTO_wbaes_wbgcm_ee_decrypt(E, bi.p, n, bo.p, n) : WBCRYPTO_wbaes_wbgcm_ee_encrypt(E, bi.p, n, bo.p, n)) : (dir ? WBCRYPTO_wbaes_wbgcm_mask_decrypt(M, bi.p, n, bo.p, n) : WBCRYPTO_wbaes_wbgcm_mask_encrypt(M, bi.p, n, bo.p, n))) == 1; });
            step("wbgcm finish", [&] { return (ee ? WBCRYPTO_wbaes_wbgcm_ee_finish(E, bt.p, 16) : WBCRYPTO_wbaes_wbgcm_mask_finish(M, bt.p, 16)) == 1; });
            eq("wrong-result", bo.bytes(), dst, "%s: %s", w, dir ? "decryption" : "encryption"); eq("wrong-result", bt.bytes(), tag, "%s: %s tag", w, dir ? "decryption" : "encryption");
            lib([&] { file_free(c); });
        }
    }
    void sm3() {
        what("sm3"); Buf b(data, al), d(32, al), d1(32, al); std::unique_ptr<WBCRYPTO_sm3_context> c(new WBCRYPTO_sm3_context);
        size_t cut = (size_t)o.get("cut") % (n + 1); bool ok = true;
        lib([&] { ok = WBCRYPTO_sm3_init(c.get()) == 1; });
        lib([&] { ok = ok && WBCRYPTO_sm3_update(c.get(), b.p, cut) == 1; });
        lib([&] { ok = ok && WBCRYPTO_sm3_update(c.get(), b.p + cut, n - cut) == 1; });
        lib([&] { ok = ok && WBCRYPTO_sm3_final(c.get(), d.p) == 1 && WBCRYPTO_sm3(b.p, n, d1.p) == 1; });
        if (!ok) violate("call-failed", "%s failed", w);
        eq("wrong-result", d.bytes(), sm3_ref(data), "%s", w); eq("wrong-result", d1.bytes(), sm3_ref(data), "%s", w);
    }
    void ffx() {
        int alg = (int)o.get("alg") & 1; bool mac = o.get("mac"); unsigned radix = 2 + (unsigned)o.get("radix") % 35; size_t len = 2 + n % 60;
        snprintf(w, sizeof w, "%s %s%s radix %u, %zu characters", kind_name[k->kind], alg ? "ff3" : "ff1", mac ? "-mac" : "", radix, len);
        Bytes tw = rbytes(seed + 2, (size_t)o.get("alen") % 24); std::string x; Rng r(seed); for (size_t i = 0; i < len; i++) x += DIG[r.next() % radix];
        std::string want = alg ? ff3_ref(*k->blk, true, x, radix, tw) : ff1_ref(*k->blk, true, x, radix, tw);
        Buf bt(tw, al), bx(len + 1, al), by(len + 1, al), bz(len + 1, al), t1(16), t2(16); memcpy(bx.p, x.c_str(), len + 1);
        void *h = nullptr; size_t tn = 0;
        step("fpe init", [&] { h = mac ? (void *)WBCRYPTO_fpe_mac_init(bt.p, bt.n, radix, k->ctx, block_fn(k->kind)) : (void *)WBCRYPTO_fpe_init(bt.p, bt.n, radix, k->ctx, block_fn(k->kind)); return h != nullptr; });
        auto crypt = [&](bool enc, Buf &in, Buf &out) {
            step(enc ? "fpe encryption" : "fpe decryption", [&] {
                const char *i = (char *)in.p; char *q = (char *)out.p; auto *m = (WBCRYPTO_fpe_mac_context *)h; auto *f = (WBCRYPTO_fpe_context *)h;
                if (mac) return (alg ? (enc ? WBCRYPTO_ff3_gmac_encrypt(m, i, q) : WBCRYPTO_ff3_gmac_decrypt(m, i, q)) : (enc ? WBCRYPTO_ff1_cmac_encrypt(m, i, q) : WBCRYPTO_ff1_cmac_decrypt(m, i, q))) == 1;
                return (alg ? (enc ? WBCRYPTO_ff3_encrypt(f, i, q) : WBCRYPTO_ff3_decrypt(f, i, q)) : (enc ? WBCRYPTO_ff1_encrypt(f, i, q) : WBCRYPTO_ff1_decrypt(f, i, q))) == 1;
            });
            in.check("fpe input"); out.check("fpe output");
        };
        auto tag = [&](Buf &t) { if (mac) step("fpe tag", [&] { return (alg ? WBCRYPTO_ff3_gmac_finish((WBCRYPTO_fpe_mac_context *)h, (char *)t.p, &tn) : WBCRYPTO_ff1_cmac_finish((WBCRYPTO_fpe_mac_context *)h, (char *)t.p, &tn)) == 1; }); };
        crypt(true, bx, by); tag(t1);
        if (!want.empty() && std::string((char *)by.p, len) != want) violate("wrong-result", "%s: %s gives %.*s, expected %s", w, x.c_str(), (int)len, by.p, want.c_str());
        crypt(false, by, bz); tag(t2);
        if (memcmp(bz.p, bx.p, len + 1)) violate("wrong-result", "%s: %s decrypts to %.*s", w, x.c_str(), (int)len, bz.p);
        eq("wrong-result", t2.bytes(), t1.bytes(), "%s: tag after decryption", w);
        evhash("ffx", by.p, len);
        lib([&] { if (mac) WBCRYPTO_fpe_mac_free((WBCRYPTO_fpe_mac_context *)h); else WBCRYPTO_fpe_free((WBCRYPTO_fpe_context *)h); });
    }
    void app() {
        int c = (int)(o.get("cipher") & 3), f = (int)(o.get("alg") & 1), wh = (int)(o.get("what") % 3); static char CN[][8] = {"aes", "sm4", "wbaes", "wbsm4"}, FN[][4] = {"ff1", "ff3"};
        snprintf(w, sizeof w, "fpe_app %s %s %d", CN[c], FN[f], wh);
        Bytes raw = rbytes(seed + 1, 16); Block ref(c & 1 ? KSM4 : KAES, raw); Buf kb(raw, al); std::unique_ptr<WBCRYPTO_fpe_app_context> a(new WBCRYPTO_fpe_app_context);
        step("fpe_app_init", [&] { return WBCRYPTO_fpe_app_init(a.get(), kb.p, kb.n, CN[c], FN[f]) == 1; }, 96 << 10);
        std::string in, tw, src; Rng r(seed); size_t m = wh == 0 ? 11 : wh == 1 ? 18 : 2 + n % 6;
        std::string sm; bool cn = wh == 2;
        for (size_t i = 0; i < m; i++) {
            bool mark = i < 2 || r.chance(0.6); std::string ch, dg;
            if (cn) { uint32_t u = (uint32_t)r.range(0, 20735), v = u + 0x4e00; ch += (char)(0xe0 | (v >> 12)); ch += (char)(0x80 | ((v >> 6) & 63)); ch += (char)(0x80 | (v & 63)); for (int d = 0; d < 4; d++) { dg += DIG[u % 12]; u /= 12; } }
            else ch = dg = std::string(1, (char)('0' + r.range(0, 9)));
            in += ch; sm += mark ? "*" : ch; (mark ? src : tw) += dg;
        }
        Bytes twb(tw.begin(), tw.end()); twb.push_back(0);
        std::string enc = f ? ff3_ref(ref, true, src, cn ? 12 : 10, twb) : ff1_ref(ref, true, src, cn ? 12 : 10, twb), want; size_t j = 0, si = 0;
        for (size_t i = 0; i < m; i++) { bool mark = sm[si] == '*'; si += mark || !cn ? 1 : 3; size_t wd = cn ? 3 : 1; if (!mark) { want += in.substr(i * wd, wd); continue; } if (!cn) { want += enc[j++]; continue; } uint32_t u = 0; for (int d = 3; d >= 0; d--) u = u * 12 + (uint32_t)(strchr(DIG, enc[j + (size_t)d]) - DIG); j += 4; u += 0x4e00; want += (char)(0xe0 | (u >> 12)); want += (char)(0x80 | ((u >> 6) & 63)); want += (char)(0x80 | (u & 63)); }
        Buf bi(in.size() + 1, al), bs(sm.size() + 1, al), bo(in.size() + 1, al), bb(in.size() + 1, al); memcpy(bi.p, in.c_str(), in.size() + 1); memcpy(bs.p, sm.c_str(), sm.size() + 1); bo.p[in.size()] = 0;
        auto go = [&](bool e, Buf &x, Buf &y) { step(w, [&] { auto *q = a.get(); char *i = (char *)x.p, *u = (char *)y.p, *s = (char *)bs.p;
            if (wh == 0) return (e ? WBCRYPTO_fpe_encrypt_phone_with_sample(q, i, u, s) : WBCRYPTO_fpe_decrypt_phone_with_sample(q, i, u, s)) == 1;
            if (wh == 1) return (e ? WBCRYPTO_fpe_encrypt_idcard_with_sample(q, i, u, s) : WBCRYPTO_fpe_decrypt_idcard_with_sample(q, i, u, s)) == 1;
            return (e ? WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(q, i, u, s) : WBCRYPTO_fpe_decrypt_cn_utf8_with_sample(q, i, u, s)) == 1; });
            x.check("app input"); y.check("app output"); };
        go(true, bi, bo);
        if (std::string((char *)bo.p, in.size()) != want) violate("wrong-result", "%s: %s gives %.*s, expected %s", w, in.c_str(), (int)in.size(), bo.p, want.c_str());
        bo.p[in.size()] = 0; go(false, bo, bb);
        if (memcmp(bb.p, in.data(), in.size())) violate("wrong-result", "%s: %s comes back as %.*s", w, in.c_str(), (int)in.size(), bb.p);
        if (g_p19) lib([&] { void *x = a->cipher_ctx; if (c == 0) WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)x); else if (c == 1) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)x); else if (c == 2) WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)x); else WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)x); });   // there is no fpe_app release function
    }
    void file() {
        what("file"); const Bytes &im = prep[idx].image; Bytes aad = rbytes(seed + 2, (size_t)o.get("alen")); char pi[24], pe[24], pd[24];
        snprintf(pi, 24, "in%d", idx); snprintf(pe, 24, "enc%d", idx); snprintf(pd, 24, "dec%d", idx);
        dk_write(pi, data);
        for (int dir = 0; dir < 2; dir++) {
            FileCtx c; Buf ba(aad, al);
            step("file init", [&] { return file_init(c, *k, dir); });
            step(dir ? "file decryption" : "file encryption", [&] { Buf v(iv); return file_setiv(c, v.p, v.n) == 1 && (aad.empty() || file_aad(c, ba.p, ba.n) == 1) && file_run(c, dir ? pe : pi, dir ? pd : pe) == 1; });
            if (!dk_exists(dir ? pd : pe)) violate("wrong-result", "%s: no output file", w);
            eq("wrong-result", dk_read(dir ? pd : pe), dir ? data : im, "%s: %s", w, dir ? "decryption" : "encryption");
            lib([&] { file_free(c); });
        }
        if (!g_p17) for (auto &p : {pi, pe, pd}) dk_remove(p);
    }
    void gen() {
        int alg = (int)(o.get("alg") % 5), dir = alg == 1 || alg == 2 ? (int)o.get("dir") & 1 : 1; static const char *N[] = {"wbaes", "wbsm4", "se_wbsm4", "wbgcm_ee", "wbgcm_mask"};
        Bytes raw = rbytes(seed, 1 + n % 20); Buf kb(raw, al); Block ref(alg == 1 || alg == 2 ? KSM4 : KAES, pad_key(raw)); void *c = nullptr, *d = nullptr;
        snprintf(w, sizeof w, "%s tables", N[alg]);
        step(w, [&] { c = alg == 0 ? (void *)WBCRYPTO_wbaes_context_init() : alg == 1 ? (void *)WBCRYPTO_wbsm4_context_init(dir, 1 + (int)(o.get("dummy") & 3)) : alg == 2 ? (void *)WBCRYPTO_se_wbsm4_context_init(dir) : alg == 3 ? sim_malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context)) : (void *)WBCRYPTO_wbaes_wbgcm_mask_init_table(); return c != nullptr; });
        if (alg == 4) step(w, [&] { d = WBCRYPTO_wbaes_wbgcm_mask_init_table(); return d != nullptr; });
        step(w, [&] {
            if (alg == 0) return WBCRYPTO_wbaes_gen_table((WBCRYPTO_wbaes_context *)c, kb.p, kb.n) == 1;
            if (alg == 1) return WBCRYPTO_wbsm4_gen_table((WBCRYPTO_wbsm4_context *)c, kb.p, kb.n) == 1;
            if (alg == 2) return WBCRYPTO_se_wbsm4_gen_table((WBCRYPTO_se_wbsm4_context *)c, kb.p, kb.n) == 1;
            if (alg == 3) WBCRYPTO_wbaes_wbgcm_ee_gen_table((WBCRYPTO_wbaes_wbgcm_ee_context *)c, kb.p, kb.n);
            else WBCRYPTO_wbaes_wbgcm_mask_gen_table((WBCRYPTO_wbaes_wbgcm_mask_context *)c, (WBCRYPTO_wbaes_wbgcm_mask_context *)d, kb.p, kb.n);
            return true;
        }, 96 << 10);
        kb.check("key");
        if (alg < 3) {
            size_t m = alg == 2 ? 60 : 300; Bytes in = rbytes(seed + 7, 16 * m), out(16 * m), want(16 * m); int bad = 0;
            lib_quiet([&] { for (size_t i = 0; i < m; i++) { u8 *x = &in[16 * i], *y = &out[16 * i];
                int r = alg == 0 ? WBCRYPTO_wbaes_encrypt(x, y, (WBCRYPTO_wbaes_context *)c) : alg == 1 ? (dir ? WBCRYPTO_wbsm4_encrypt(x, y, (WBCRYPTO_wbsm4_context *)c) : WBCRYPTO_wbsm4_decrypt(x, y, (WBCRYPTO_wbsm4_context *)c)) : (dir ? WBCRYPTO_se_wbsm4_encrypt(x, y, (WBCRYPTO_se_wbsm4_context *)c) : WBCRYPTO_se_wbsm4_decrypt(x, y, (WBCRYPTO_se_wbsm4_context *)c));
                bad += r != 1; } });
            for (size_t i = 0; i < m; i++) if (dir) ref.enc(&in[16 * i], &want[16 * i]); else ref.dec(&in[16 * i], &want[16 * i]);
            if (bad) violate("call-failed", "%s: a block call failed", w);
            eq("wrong-result", out, want, "%s (direction %d, dummy rounds %d)", w, dir, 1 + (int)(o.get("dummy") & 3));
        } else {
            Bytes tag, m = rbytes(seed + 8, 700), ct = gcm_seal(ref, iv, Bytes(), m, tag), o1(700), o2(700), t1(16), t2(16); bool ok = true;
            lib_quiet([&] { for (int q = 0; q < 2 && ok; q++) { const u8 *x = q ? o1.data() : m.data(); u8 *y = q ? o2.data() : o1.data(); u8 *t = q ? t2.data() : t1.data();
                if (alg == 3) { auto *g = WBCRYPTO_wbaes_wbgcm_ee_init((WBCRYPTO_wbaes_wbgcm_ee_context *)c); ok = g && WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv.data(), 12) == 1 && (q ? WBCRYPTO_wbaes_wbgcm_ee_decrypt(g, x, 700, y, 700) : WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, x, 700, y, 700)) == 1 && WBCRYPTO_wbaes_wbgcm_ee_finish(g, t, 16) == 1; if (g) WBCRYPTO_wbaes_wbgcm_ee_free(g); }
                else { auto *g = WBCRYPTO_wbaes_wbgcm_mask_init((WBCRYPTO_wbaes_wbgcm_mask_context *)(q ? d : c)); ok = g && WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv.data(), 12) == 1 && (q ? WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, x, 700, y, 700) : WBCRYPTO_wbaes_wbgcm_mask_encrypt(g, x, 700, y, 700)) == 1 && WBCRYPTO_wbaes_wbgcm_mask_finish(g, t, 16) == 1; if (g) WBCRYPTO_wbaes_wbgcm_mask_free(g); }
            } });
            if (!ok) violate("call-failed", "%s: a call failed", w);
            if (alg == 3) { eq("wrong-result", o1, ct, "%s: ciphertext", w); eq("wrong-result", t1, tag, "%s: tag", w); }
            eq("wrong-result", o2, m, "%s: decryption", w); eq("wrong-result", t2, t1, "%s: tag after decryption", w);
        }
        probe(10 + alg);
        lib([&] {
            if (alg == 0) WBCRYPTO_wbaes_context_free((WBCRYPTO_wbaes_context *)c); else if (alg == 1) WBCRYPTO_wbsm4_context_free((WBCRYPTO_wbsm4_context *)c);
            else if (alg == 2) WBCRYPTO_se_wbsm4_context_free((WBCRYPTO_se_wbsm4_context *)c); else if (alg == 3) sim_free(c);
            else for (auto *t : {(WBCRYPTO_wbaes_wbgcm_mask_context *)c, (WBCRYPTO_wbaes_wbgcm_mask_context *)d}) {   // there is no release function for these tables
                for (int i = 0; i < 16; i++) { for (int j = 0; j < 256; j++) sim_free(t->GBOX_TypeIII[i][j]); sim_free(t->GBOX_TypeIII[i]); }
                sim_free(t->GBOX_TypeIII); sim_free(t);
            }
        });
    }
    void same(WBCRYPTO_wbsm4_context *c, int dir, const char *how) {
        size_t m = 100; Bytes in = rbytes(seed + 7, 16 * m), out(16 * m), want(16 * m); int bad = 0;
        lib_quiet([&] { for (size_t i = 0; i < m; i++) bad += (dir ? WBCRYPTO_wbsm4_encrypt(&in[16 * i], &out[16 * i], c) : WBCRYPTO_wbsm4_decrypt(&in[16 * i], &out[16 * i], c)) != 1; });
        for (size_t i = 0; i < m; i++) if (dir) k->blk->enc(&in[16 * i], &want[16 * i]); else k->blk->dec(&in[16 * i], &want[16 * i]);
        if (bad) violate("call-failed", "%s: a block call failed", how);
        eq("wrong-result", out, want, "%s: the imported key", how);
    }
    void keyf(bool bytes) {
        if (k->kind != KWBSM4) return;
        int dir = (int)o.get("dir") & 1; auto *src = (WBCRYPTO_wbsm4_context *)(dir ? k->ctx : k->ctx2); char path[24]; snprintf(path, 24, "key%d", idx);
        WBCRYPTO_wbsm4_context *c = nullptr; char *ks = nullptr;
        step("wbsm4_context_init", [&] { c = WBCRYPTO_wbsm4_context_init((int)o.get("rdir") & 1, 1 + (int)(o.get("dummy") & 3)); return c != nullptr; });
        if (bytes) {
            step("wbsm4_key2bytes", [&] { return WBCRYPTO_wbsm4_key2bytes(src, &ks) == 1; });
            if (!ks) violate("wrong-result", "wbsm4_key2bytes gives no stream");
            step("wbsm4_bytes2key", [&] { return WBCRYPTO_wbsm4_bytes2key(c, ks) == 1; });
        } else {
            step("wbsm4_key2file", [&] { return WBCRYPTO_wbsm4_key2file(src, path) == 1; });
            step("wbsm4_file2key", [&] { return WBCRYPTO_wbsm4_file2key(c, path) == 1; });
            if (!g_p17) dk_remove(path);
        }
        same(c, dir, bytes ? "wbsm4 key bytes" : "wbsm4 key file"); same(src, dir, "the exported key");
        lib([&] { if (ks) sim_free(ks); WBCRYPTO_wbsm4_context_free(c); });
    }
    void store() {
        char path[24]; snprintf(path, 24, "st%d", idx); Buf b(data, al), r(n, al);
        step("key_to_file", [&] { return WBCRYPTO_keystore_key_to_file(b.p, n, path) == 1; });
        step("file_to_key", [&] { return WBCRYPTO_keystore_file_to_key(r.p, n, path) == 1; });
        eq("wrong-result", r.bytes(), data, "key store of %zu bytes", n);
        if (!g_p17) dk_remove(path);
    }
    void refused() {
        int sub = (int)(o.get("sub") % 12), alg = (int)o.get("alg") & 1; bool mac = o.get("mac"), enc = o.get("dir") & 1; Rng r(seed);
        snprintf(w, sizeof w, "refused input %d (%s)", sub, kind_name[k->kind]);
        char pa[24], pb[24]; snprintf(pa, 24, "ra%d", idx); snprintf(pb, 24, "rb%d", idx);
        switch (sub) {
        case 0: {
            Buf t(rbytes(seed, n % 40), al); unsigned radix = r.chance(0.5) ? (unsigned)r.range(0, 1) : 37 + (unsigned)(r.chance(0.5) ? r.range(0, 3) : r.range(0, 1 << 30));
            if (mac) refuse("fpe_mac_init with a radix outside 2..36", [&] { return WBCRYPTO_fpe_mac_init(t.p, t.n, radix, k->ctx, block_fn(k->kind)) != nullptr; });
            else refuse("fpe_init with a radix outside 2..36", [&] { return WBCRYPTO_fpe_init(t.p, t.n, radix, k->ctx, block_fn(k->kind)) != nullptr; });
            break; }
        case 1: case 2: {                                  // too short, or a character outside the alphabet
            unsigned radix = 2 + (unsigned)o.get("radix") % 35; size_t len = sub == 1 ? n % 2 : 2 + n % 60; Bytes tw = rbytes(seed + 2, (size_t)o.get("alen") % 24); std::string x; for (size_t i = 0; i < len; i++) x += DIG[r.next() % radix];
            if (sub == 2) { static const char B[] = "!/:@[`{~ \x80\xff"; x[r.next() % len] = radix < 36 && r.chance(0.5) ? DIG[radix + r.next() % (36 - radix)] : B[r.next() % (sizeof B - 1)]; }
            Buf bt(tw, al), bx(len + 1, al), by(len + 1, al); memcpy(bx.p, x.c_str(), len + 1); void *h = nullptr;
            step("fpe init", [&] { h = mac ? (void *)WBCRYPTO_fpe_mac_init(bt.p, bt.n, radix, k->ctx, block_fn(k->kind)) : (void *)WBCRYPTO_fpe_init(bt.p, bt.n, radix, k->ctx, block_fn(k->kind)); return h != nullptr; });
            refuse(sub == 1 ? "FPE of a string of less than two characters" : "FPE of characters outside the alphabet", [&] {
                const char *i = (char *)bx.p; char *q = (char *)by.p; auto *m = (WBCRYPTO_fpe_mac_context *)h; auto *f = (WBCRYPTO_fpe_context *)h;
                if (mac) return (alg ? (enc ? WBCRYPTO_ff3_gmac_encrypt(m, i, q) : WBCRYPTO_ff3_gmac_decrypt(m, i, q)) : (enc ? WBCRYPTO_ff1_cmac_encrypt(m, i, q) : WBCRYPTO_ff1_cmac_decrypt(m, i, q))) == 1;
                return (alg ? (enc ? WBCRYPTO_ff3_encrypt(f, i, q) : WBCRYPTO_ff3_decrypt(f, i, q)) : (enc ? WBCRYPTO_ff1_encrypt(f, i, q) : WBCRYPTO_ff1_decrypt(f, i, q))) == 1;
            });
            bx.check("fpe input"); by.check("fpe output");
            lib([&] { if (mac) WBCRYPTO_fpe_mac_free((WBCRYPTO_fpe_mac_context *)h); else WBCRYPTO_fpe_free((WBCRYPTO_fpe_context *)h); });
            break; }
        case 3: {
            size_t m = n + 1, pl = (m + 15) / 16 * 16, ol = r.chance(0.5) ? pl - 1 : (size_t)r.range(0, (int64_t)pl - 1); Bytes v0 = rbytes(seed + 1, 16); size_t use = 0; Buf bi(rbytes(seed, m), al), bo(ol, al);
            refuse("cbc encryption into too small an output", [&] { Buf v(v0); switch (k->kind) {
                case KAES: return WBCRYPTO_aes_cbc_encrypt(bi.p, m, bo.p, ol, &use, (WBCRYPTO_aes_context *)k->ctx, v.p) == 1;
                case KSM4: return WBCRYPTO_sm4_cbc_encrypt(bi.p, m, bo.p, ol, &use, (WBCRYPTO_sm4_context *)k->ctx, v.p) == 1;
                case KWBAES: return WBCRYPTO_wbaes_cbc_encrypt(bi.p, m, bo.p, ol, &use, (WBCRYPTO_wbaes_context *)k->ctx, v.p) == 1;
                default: return WBCRYPTO_wbsm4_cbc_encrypt(bi.p, m, bo.p, ol, &use, (WBCRYPTO_wbsm4_context *)k->ctx, v.p) == 1; } });
            bi.check("cbc input"); bo.check("cbc output");
            break; }
        case 4: {
            size_t m = n + 1, ol = r.chance(0.5) ? m - 1 : (size_t)r.range(0, (int64_t)m - 1); bool par = o.get("par") & 1; Buf bi(rbytes(seed, m), al), bo(ol, al); WBCRYPTO_gcm_context *g = nullptr;
            step("gcm init", [&] { g = WBCRYPTO_gcm_init(k->ctx, block_fn(k->kind)); return g != nullptr; });
            step("gcm setiv", [&] { Buf v(iv); return WBCRYPTO_gcm_setiv(g, v.p, v.n) == 1; });
            refuse("gcm into too small an output", [&] { return (par ? (enc ? WBCRYPTO_gcm_parallel_encrypt(g, bi.p, m, bo.p, ol) : WBCRYPTO_gcm_parallel_decrypt(g, bi.p, m, bo.p, ol)) : (enc ? WBCRYPTO_gcm_encrypt(g, bi.p, m, bo.p, ol) : WBCRYPTO_gcm_decrypt(g, bi.p, m, bo.p, ol))) == 1; });
            bi.check("gcm input"); bo.check("gcm output");
            lib([&] { WBCRYPTO_gcm_free(g); });
            break; }
        case 5: case 6: {
            int c = (int)(o.get("par") & 1), wh = (int)(o.get("cut") % 3); static char CN[][8] = {"aes", "sm4"}, FN[][4] = {"ff1", "ff3"}; Buf kb(rbytes(seed + 1, 16), al); std::unique_ptr<WBCRYPTO_fpe_app_context> a(new WBCRYPTO_fpe_app_context);
            step("fpe_app_init", [&] { return WBCRYPTO_fpe_app_init(a.get(), kb.p, kb.n, CN[c], FN[alg]) == 1; }, 96 << 10);
            std::string in, sm; size_t m = wh == 0 ? 11 : wh == 1 ? 18 : 1 + n % 6;
            if (wh == 2) { for (size_t i = 0; i < m; i++) { uint32_t v = 0x4e00 + (uint32_t)r.range(0, 20735); in += (char)(0xe0 | (v >> 12)); in += (char)(0x80 | ((v >> 6) & 63)); in += (char)(0x80 | (v & 63)); } size_t at = 3 * (r.next() % m); if (sub == 5) in.resize(in.size() - 1 - r.next() % 2); else in.replace(at, 3, r.chance(0.5) ? "x" : "\xe3\x81\x82"); sm = std::string(m + 1, '*'); }
            else { for (size_t i = 0; i < m; i++) in += (char)('0' + r.range(0, 9)); size_t at = r.next() % (m - 1); sm = sub == 5 ? in : std::string(m, '*'); if (sub == 5 && r.chance(0.7)) sm[at] = '*'; if (sub == 6) in[at] = "xX/:a*"[r.next() % 6]; }
            Buf bi(in.size() + 1, al), bs(sm.size() + 1, al), bo(in.size() + 1, al); memcpy(bi.p, in.c_str(), in.size() + 1); memcpy(bs.p, sm.c_str(), sm.size() + 1); memset(bo.p, 0, bo.n);
            refuse("fpe_app with input it cannot process", [&] { auto *q = a.get(); char *i = (char *)bi.p, *u = (char *)bo.p, *s = (char *)bs.p;
                if (wh == 0) return (enc ? WBCRYPTO_fpe_encrypt_phone_with_sample(q, i, u, s) : WBCRYPTO_fpe_decrypt_phone_with_sample(q, i, u, s)) == 1;
                if (wh == 1) return (enc ? WBCRYPTO_fpe_encrypt_idcard_with_sample(q, i, u, s) : WBCRYPTO_fpe_decrypt_idcard_with_sample(q, i, u, s)) == 1;
                return (enc ? WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(q, i, u, s) : WBCRYPTO_fpe_decrypt_cn_utf8_with_sample(q, i, u, s)) == 1; });
            bi.check("app input"); bs.check("app sample"); bo.check("app output");
            lib([&] { if (c) WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)a->cipher_ctx); else WBCRYPTO_aes_context_free((WBCRYPTO_aes_context *)a->cipher_ctx); });
            break; }
        case 7: case 8: {                                  // file decryption of a damaged, truncated or missing file; encryption of a missing one
            Key &fk = *k; Bytes im = prep[idx].image; const char *why = "file encryption of a missing file"; bool dec = sub == 7 || enc;
            if (dec) switch (r.range(0, 3)) {
                case 0: why = "file decryption of a missing file"; break;
                case 1: why = "file decryption of a truncated file"; im.resize(r.chance(0.4) ? (size_t)r.range(0, 23) : r.next() % im.size()); dk_write(pa, im); break;
                case 2: why = "file decryption of an over-long file"; im.resize(im.size() + (size_t)r.range(1, 20), 7); dk_write(pa, im); break;
                default: why = "file decryption of a damaged file"; { size_t at = r.next() % im.size(); if (at >= 20 && at < 24) at -= 4; im[at] ^= (u8)(1 << r.range(0, 7)); } dk_write(pa, im); }
            FileCtx c;
            step("file init", [&] { return file_init(c, fk, dec); });
            refuse(why, [&] { Buf v(iv); return file_setiv(c, v.p, v.n) == 1 && file_run(c, pa, pb) == 1; });
            lib([&] { file_free(c); });
            break; }
        case 9: {
            const Bytes &full = prep[idx].image; Bytes im; bool there = true;
            switch (r.range(0, 3)) { case 0: there = false; break; case 1: im.assign(full.begin(), full.begin() + (long)(r.chance(0.5) ? r.next() % 40 : full.size() - 1 - r.next() % 200)); break; case 2: im = rbytes(seed + 3, (size_t)r.range(0, 300)); break; default: im = full; im.resize(full.size() + (size_t)r.range(1, 9), 3); }
            if (there) dk_write(pa, im);
            WBCRYPTO_wbsm4_context *c = nullptr;
            step("wbsm4_context_init", [&] { c = WBCRYPTO_wbsm4_context_init((int)o.get("dir") & 1, 1 + (int)(o.get("dummy") & 3)); return c != nullptr; });
            refuse(there ? "wbsm4_file2key of a file that is not a complete key file" : "wbsm4_file2key of a missing file", [&] { return WBCRYPTO_wbsm4_file2key(c, pa) == 1; });
            lib([&] { WBCRYPTO_wbsm4_context_free(c); });
            break; }
        case 10: {
            const Bytes &full = prep[idx].image; Bytes im(full.begin(), full.end()); WBCRYPTO_wbsm4_context *c = nullptr;
            uint32_t len; memcpy(&len, im.data(), 4); len += (uint32_t)r.range(1, 9) * (r.chance(0.5) ? 1u : (uint32_t)-1); memcpy(im.data(), &len, 4);
            Buf b(im, al);
            step("wbsm4_context_init", [&] { c = WBCRYPTO_wbsm4_context_init((int)o.get("dir") & 1, 1 + (int)(o.get("dummy") & 3)); return c != nullptr; });
            refuse("wbsm4_bytes2key of an inconsistent stream", [&] { return WBCRYPTO_wbsm4_bytes2key(c, (const char *)b.p) == 1; });
            lib([&] { WBCRYPTO_wbsm4_context_free(c); });
            break; }
        default: {
            bool there = r.chance(0.7); if (there) dk_write(pa, rbytes(seed, n));
            Buf b(n + 1 + (size_t)r.range(0, 20), al);
            refuse(there ? "file_to_key of a file that is too short" : "file_to_key of a missing file", [&] { return WBCRYPTO_keystore_file_to_key(b.p, b.n, pa) == 1; });
            b.check("key");
        } }
        if (!g_p17) for (auto &q : {pa, pb}) dk_remove(q);
    }
    void run() {
        sim_set_op(idx); S->ctr[C_OPS]++;
        int j = 0; while (j < NJ && o.name != jname[j]) j++;
        int64_t kd = o.get("kind", -1); bool k4 = kd >= 0 && kd <= KWBSM4, k6 = kd >= 0 && kd <= KMASK;
        ev("%s begins", o.name.c_str());
        int64_t live = g_p19 ? sim_live(0, nullptr) : 0, id = sim_alloc_id();
        switch (j) {
            case J_BLK: if (k4) blk(); break;
            case J_CTX: ctx(); break;
            case J_CBC: if (k4) cbc(); break;
            case J_GCM: if (k4) gcm(); break;
            case J_WBG: if (kd == KEE || kd == KMASK) wbg(); break;
            case J_SM3: sm3(); break;
            case J_FFX: if (k4) ffx(); break;
            case J_APP: app(); break;
            case J_FILE: if (k6) file(); break;
            case J_GEN: gen(); break;
            case J_KEYF: case J_KEYB: if (k4) keyf(j == J_KEYB); break;
            case J_STORE: store(); break;
            case J_REF: { int s = (int)(o.get("sub") % 12); if (s == 9 || s == 10 ? kd == KWBSM4 : s == 7 || s == 8 ? k6 : k4) refused(); break; }
        }
        if (g_p19) {
            std::string h; int64_t n = sim_live(0, nullptr);
            if (n > live) { sim_live(id, &h); violate("leak", "%s: after everything was released the library still holds %lld block(s), e.g. %s", w, (long long)(n - live), h.c_str()); }
            if (sim_open_files()) violate("file-leak", "%s left %d file(s) open", w, sim_open_files());
        }
        ev("%s done", o.name.c_str());
        sig(mix64((uint64_t)j, mix64((uint64_t)(kd + 1), mix64((uint64_t)(o.get("alg") * 8 + o.get("mac") * 4 + o.get("dir") * 2), std::min<size_t>(n / 16, 20)))));
    }
};
void prepare(const Plan &p) {
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op &o = p.ops[i]; int64_t kd = o.get("kind", -1);
        if (kd >= 0 && kd <= KMASK) get_key((int)kd, (int)o.get("key"));   // before the threads start
        if (o.name == "refused" && kd >= 0 && kd <= KMASK) {
            int sub = (int)(o.get("sub") % 12); uint64_t seed = (uint64_t)o.get("seed"); Bytes &im = prep[(int)i].image; bool ok = true;
            if (sub == 7 || sub == 8) im = file_image(get_key((int)kd, (int)o.get("key")), rbytes(seed + 1, 12), false, Bytes(), rbytes(seed, (size_t)o.get("len")));
            if ((sub == 9 || sub == 10) && kd == KWBSM4) {
                Key &k = get_key(KWBSM4, (int)o.get("key")); auto *c = (WBCRYPTO_wbsm4_context *)(o.get("dir") & 1 ? k.ctx : k.ctx2); char tmp[] = "prepared"; char *ks = nullptr;
                if (sub == 9) { lib_quiet([&] { ok = WBCRYPTO_wbsm4_key2file(c, tmp) == 1; }); if (ok && dk_exists(tmp)) im = dk_read(tmp); dk_remove(tmp); }
                else { lib_quiet([&] { ok = WBCRYPTO_wbsm4_key2bytes(c, &ks) == 1; }); uint32_t n = 0; if (ok && ks) { memcpy(&n, ks, 4); if (n > 4 && n < (3u << 20)) im.assign((u8 *)ks, (u8 *)ks + n); lib_quiet([&] { sim_free(ks); }); } }
                if (im.size() < 300) violate("setup", "exporting a white-box SM4 key fails");
            }
            continue;
        }
        if (kd < 0 || kd > KMASK) continue;
        Key &k = get_key((int)kd, (int)o.get("key"));
        if ((o.name == "wbg" && kd >= KEE) || o.name == "file") { uint64_t seed = (uint64_t)o.get("seed"); Bytes aad = rbytes(seed + 2, (size_t)o.get("alen")); prep[(int)i].image = file_image(k, rbytes(seed + 1, 12), !aad.empty(), aad, rbytes(seed, (size_t)o.get("len"))); }
    }
}
void e16(const Plan &p, int) {
    g_p17 = false; prepare(p);
    std::vector<std::function<void()>> fs; std::vector<int> ops;
    for (int t = 0; t < 4; t++) {
        std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t) mine.push_back((int)i);
        if (mine.empty()) continue;
        ops.push_back(mine[0]); fs.push_back([&, mine] { for (int i : mine) Job(p.ops[(size_t)i], i).run(); });
    }
    run_concurrent(fs, ops);
}
void e17(const Plan &p, int start) {
    g_p17 = true; prepare(p);
    for (size_t i = (size_t)start; i < p.ops.size(); i++) Job(p.ops[i], (int)i).run();
}
void add(Rng &r, Plan &p, int j, int slot, int genalg, int genmax) {
    Op &o = p.add(jname[j]); o.set("slot", slot).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 15));
    bool k4 = j == J_BLK || j == J_CBC || j == J_GCM || j == J_FFX || j == J_REF;
    if (k4) o.set("kind", r.range(0, 3)).set("key", r.range(0, 2));
    if (j == J_WBG) o.set("kind", r.range(KEE, KMASK)).set("key", r.range(0, 1));
    if (j == J_FILE) o.set("kind", r.range(0, KMASK)).set("key", r.range(0, 1));
    if (j == J_KEYF || j == J_KEYB) o.set("kind", KWBSM4).set("key", r.range(0, 2)).set("dir", r.range(0, 1)).set("rdir", r.range(0, 1)).set("dummy", r.range(0, 3));
    int len = j == J_FILE ? lenpick(r, 2000) : lenpick(r, 400);
    o.set("len", len);
    if (j == J_GCM || j == J_WBG || j == J_FFX || j == J_FILE) o.set("alen", r.chance(0.4) ? 0 : r.range(1, 40));
    if (j == J_GCM) o.set("par", r.chance(0.5) ? 0 : r.range(1, 15)).set("cut", r.range(0, 30));
    if (j == J_SM3) o.set("cut", r.range(0, 400));
    if (j == J_CTX) o.set("alg", r.range(0, 1));
    if (j == J_FFX) o.set("alg", r.range(0, 1)).set("mac", r.chance(0.4)).set("radix", r.range(0, 34));
    if (j == J_APP) o.set("alg", r.range(0, 1)).set("what", r.range(0, 2)).set("cipher", r.chance(genmax ? 0.15 : 0) ? r.range(2, 3) : r.range(0, 1));
    if (j == J_REF) { int sub = (int)r.range(0, 11); o.set("sub", sub).set("alg", r.range(0, 1)).set("mac", r.chance(0.4)).set("dir", r.range(0, 1)).set("radix", r.range(0, 34)).set("alen", r.range(0, 40)).set("par", r.range(0, 3)).set("cut", r.range(0, 30)).set("dummy", r.range(0, 3)); if (sub == 7 || sub == 8) o.set("kind", r.range(0, KMASK)); if (sub == 9 || sub == 10) o.set("kind", KWBSM4); if (o.get("kind") >= KEE) o.set("key", r.range(0, 1)); }
    if (j == J_GEN) o.set("alg", genalg >= 0 ? genalg : r.range(0, genmax)).set("dir", r.range(0, 1)).set("dummy", r.range(0, 3));
}
void roomy(Plan &p) { for (auto &o : p.ops) if (o.name == "keyf" || (o.name == "refused" && o.get("sub") == 9)) p.env["bufsz"] = 0; }   // key files are large: default stdio buffers
void g16(Rng &r, Plan &p) {
    int th = (int)r.range(2, 4); int mode = (int)r.range(0, 9); bool T = p.variant == "T";
    if (mode == 0) {                                        // table generation in several threads
        int a = T ? (r.chance(0.6) ? 2 : (int)r.range(0, 1)) : r.chance(0.5) ? (int)r.range(0, 2) : (int)r.range(0, 4); th = (int)r.range(2, 3);
        for (int t = 0; t < th; t++) { add(r, p, J_GEN, t, r.chance(0.6) ? a : T ? (int)r.range(0, 2) : -1, 4); if (r.chance(0.3)) add(r, p, (int)r.range(0, J_APP), t, -1, 0); }
    } else if (mode < 6) {                                  // every thread does the same kind of thing
        int j; do j = (int)r.range(0, NJ - 1); while (j == J_GEN || (T && (j == J_KEYF || j == J_KEYB) && !r.chance(0.2)));
        for (int t = 0; t < th; t++) {
            add(r, p, j, t, -1, 0);
            if (t && r.chance(0.5)) for (auto &a : p.ops[0].a) if (a.first == "kind" || a.first == "alg" || a.first == "mac" || a.first == "par" || a.first == "what" || a.first == "key") p.ops.back().set(a.first.c_str(), a.second);
        }
        if (r.chance(0.3)) for (int t = 0; t < th; t++) add(r, p, j, t, -1, 0);
    } else {
        int n = (int)r.range(th, 3 * th);
        for (int i = 0; i < n; i++) { int j; do j = (int)r.range(0, NJ - 1); while (j == J_GEN || (T && (j == J_KEYF || j == J_KEYB))); add(r, p, j, i % th, -1, 0); }
    }
    p.env["conc"] = 1; roomy(p);
}
int pick17(Rng &r) {                                       // key files and streams are slow: fewer of them; refused inputs have many sub-cases: more of them
    int j; do j = (int)r.range(0, NJ - 1); while ((j == J_KEYF || j == J_KEYB) && r.chance(0.5));
    return r.chance(0.15) ? (int)J_REF : j;
}
void g17(Rng &r, Plan &p) {
    int n = (int)r.range(1, 5), j0 = pick17(r);
    for (int i = 0; i < n; i++) {
        int j = r.chance(0.5) ? j0 : pick17(r);
        if (j == J_BLK || j == J_SM3) { if (i || n > 1) { if (!r.chance(0.2)) j = J_FFX; } else j = J_CBC; }
        add(r, p, j, 0, -1, j == J_GEN ? 4 : 1);
    }
    roomy(p);
}
RegMod r16(Module{"P16", g16, e16, "sp", 4});
void e19(const Plan &p, int start) {
    g_p17 = g_p19 = true; prepare(p);
    for (size_t i = (size_t)start; i < p.ops.size(); i++) { clear_io_fault_flag(); Job(p.ops[i], (int)i).run(); }
}
RegMod r19(Module{"P19", g17, e19, "afp", 6});
RegMod r17(Module{"P17", g17, e17, "ap", 6});
}
