// P01 (parallel GCM) and P02 (GCM call histories)
#include "lib.h"
#include <openssl/evp.h>
namespace {
struct Slot {
    Key *k = nullptr; WBCRYPTO_gcm_context *g = nullptr; GcmRef ref;
    bool iv = false, aad = false, data = false, partial = false, fin = false; int dir = -1;
};
void reset(Slot &s) { s.iv = s.aad = s.data = s.partial = s.fin = false; s.dir = -1; }

// One message far beyond 2^31 bytes (or with additional data beyond 2^29 bytes), in place, compared piecewise with OpenSSL.
void piece(uint64_t seed, uint64_t at, u8 *o, size_t n) { Rng r(mix64(seed, at)); for (size_t i = 0; i < n; i += 64) { uint64_t x = r.next(); memcpy(o + i, &x, n - i < 8 ? n - i : 8); } }
void huge(Key &k, const Op &o) {
    size_t n = (size_t)o.get("len"), an = (size_t)o.get("aadlen"); uint64_t seed = (uint64_t)o.get("seed"); int dir = (int)o.get("dir") & 1;
    const size_t PC = 1 << 20;
    u8 *m = (u8 *)calloc(1, std::max(n, an) + 64), *t = (u8 *)calloc(1, PC), *w = (u8 *)calloc(1, PC + 32);
    if (!m || !t || !w) { ev("huge message skipped: no memory"); return; }
    Bytes iv = rbytes(seed, 12);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l = 0;
    EVP_CipherInit_ex(c, EVP_aes_128_gcm(), nullptr, k.k16.data(), iv.data(), !dir);
    auto *g = call([&] { return WBCRYPTO_aes_gcm_init((WBCRYPTO_aes_context *)k.ctx); });
    if (!g) violate("init-failed", "aes gcm_init returned NULL without an allocation failure");
    call([&] { return WBCRYPTO_gcm_setiv(g, iv.data(), 12); });
    if (an) {
        for (size_t i = 0; i < an; i += PC) { size_t q = std::min(PC, an - i); piece(seed + 1, i, m + i, q); EVP_CipherUpdate(c, nullptr, &l, m + i, (int)q); }
        if (call([&] { return WBCRYPTO_gcm_aad(g, m, an); }) != 1) violate("aad-failed", "aes gcm_aad(%zu bytes) failed", an);
        memset(m, 0, an);
    }
    for (size_t i = 0; i < n; i += PC) piece(seed, i, m + i, std::min(PC, n - i));
    memset(m + n, 0xC7, 64);
    bool par = o.get("par");
    int r = n ? call([&] { if (par) return dir ? WBCRYPTO_gcm_parallel_decrypt(g, m, n, m, n) : WBCRYPTO_gcm_parallel_encrypt(g, m, n, m, n); return dir ? WBCRYPTO_gcm_decrypt(g, m, n, m, n) : WBCRYPTO_gcm_encrypt(g, m, n, m, n); }) : 1;
    if (r != 1) violate("crypt-failed", "aes gcm %s of %zu bytes returned %d", dir ? "decrypt" : "encrypt", n, r);
    for (int i = 0; i < 64; i++) if (m[n + i] != 0xC7) violate("buffer-overflow", "aes gcm call of %zu bytes wrote past its output", n);
    for (size_t i = 0; i < n; i += PC) {
        size_t q = std::min(PC, n - i); memset(t, 0, PC); piece(seed, i, t, q);
        EVP_CipherUpdate(c, w, &l, t, (int)q);
        if (memcmp(w, m + i, q)) { size_t j = 0; while (w[j] == m[i + j]) j++; violate("wrong-output", "aes gcm %s of one chunk of %zu bytes differs at byte %zu", dir ? "decrypt" : "encrypt", n, i + j); }
    }
    u8 tag[16] = {0}, want[16] = {0};
    call([&] { return WBCRYPTO_gcm_finish(g, tag, 16); });
    if (!dir) { EVP_CipherFinal_ex(c, w, &l); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, want); if (memcmp(tag, want, 16)) violate("wrong-tag", "aes tag (aad %zu, data %zu bytes) is wrong", an, n); }
    else { EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_SET_TAG, 16, tag); if (EVP_CipherFinal_ex(c, w, &l) <= 0) violate("wrong-tag", "aes tag (aad %zu, data %zu bytes) is wrong", an, n); }
    evhash("huge", tag, 16);
    lib([&] { WBCRYPTO_gcm_free(g); });
    EVP_CIPHER_CTX_free(c); free(m); free(t); free(w);
    S->ctr[C_PROBE0 + 0]++;
}
void do_op(const char *prop, Slot &s, const Op &o, int idx) {
    sim_set_op(idx);
    S->ctr[C_OPS]++;
    if (o.name == "huge") { huge(get_key(KAES, (int)o.get("key")), o); return; }
    if (o.name == "new") {
        if (o.get("own") && s.g) { lib([&] { WBCRYPTO_gcm_free(s.g); }); s.g = nullptr; }       // nothing uses the key while it changes
        int slot = (int)o.get("slot") & 3;
        Key &k = o.get("own") ? own_key(slot, (int)o.get("kind"), (int)o.get("key"), (int)o.get("own")) : get_key((int)o.get("kind"), (int)o.get("key"));
        s.k = &k; s.g = nullptr; reset(s);
        int af = g_alloc_fail;
        int via = (int)o.get("via");
        s.g = call([&]() -> WBCRYPTO_gcm_context * {
            if (via) return WBCRYPTO_gcm_init(k.ctx, block_fn(k.kind));
            switch (k.kind) {
                case KAES: return WBCRYPTO_aes_gcm_init((WBCRYPTO_aes_context *)k.ctx);
                case KSM4: return WBCRYPTO_sm4_gcm_init((WBCRYPTO_sm4_context *)k.ctx);
                case KWBAES: return WBCRYPTO_wbaes_gcm_init((WBCRYPTO_wbaes_context *)k.ctx);
                default: return WBCRYPTO_wbsm4_gcm_init((WBCRYPTO_wbsm4_context *)k.ctx);
            }
        });
        if (!s.g && g_alloc_fail == af) violate("init-failed", "%s gcm_init returned NULL without an allocation failure", kind_name[k.kind]);
        s.ref.init(k.blk.get());
        ev("new %s %d", kind_name[k.kind], s.g != nullptr);
        return;
    }
    if (!s.g) return;
    const char *kn = kind_name[s.k->kind];
    if (o.name == "setiv") {
        Bytes iv;
        if (o.get("mode") == 1) {                     // counter about to wrap (any 16-byte IV reaches any counter block)
            Bytes j = rbytes((uint64_t)o.get("seed"), 16); uint32_t c = 0xffffffffu - (uint32_t)(o.get("back") & 255);
            if (o.get("back") & 256) c = (c & 0xffff) | 0x00ff0000; // carry into the first counter byte only
            else if (o.get("back") & 512) c = (c & 0xff) | (uint32_t)j[13] << 24 | (o.get("back") & 1024 ? 0x00feff00u : 0x00fe1200u); // shorter carries
            j[12] = (u8)(c >> 24); j[13] = (u8)(c >> 16); j[14] = (u8)(c >> 8); j[15] = (u8)c;
            iv = s.ref.iv_for_counter(j.data());
        } else iv = rbytes((uint64_t)o.get("seed"), (size_t)std::max<int64_t>(1, o.get("ivlen", 12)));
        reset(s);
        Buf b(iv, (int)o.get("al"));
        int r = call([&] { return WBCRYPTO_gcm_setiv(s.g, b.p, b.n); });
        if (r != 1) violate("setiv-failed", "%s gcm_setiv(%zu bytes) returned %d", kn, iv.size(), r);
        s.ref.setiv(iv); s.iv = true;
        ev("setiv %zu", iv.size());
    } else if (o.name == "aad") {
        if (!s.iv || s.aad || s.data || s.fin) return;
        Bytes a = rbytes((uint64_t)o.get("seed"), (size_t)o.get("len"));
        Buf b(a, (int)o.get("al"));
        int r = call([&] { return WBCRYPTO_gcm_aad(s.g, b.p, b.n); });
        if (r != 1) violate("aad-failed", "%s gcm_aad(%zu bytes) returned %d", kn, a.size(), r);
        s.ref.aad(a); s.aad = true;
        ev("aad %zu", a.size());
    } else if (o.name == "crypt") {
        if (!s.iv || s.partial || s.fin) return;
        int dir = s.dir >= 0 ? s.dir : (int)o.get("dir") & 1; s.dir = dir;
        size_t n = (size_t)o.get("len");
        bool par = o.get("par"), inpl = o.get("inpl");
        Bytes in = rbytes((uint64_t)o.get("seed"), n, (int)o.get("shape"));
        size_t deficit = (size_t)o.get("small"); if (deficit > n) deficit = n;
        size_t on = n - deficit + (deficit ? 0 : (size_t)o.get("spare"));
        Buf bi(in, (int)o.get("al")), bo(deficit || !inpl ? on : 0, (int)o.get("al2"));
        const u8 *ip = bi.p; u8 *op = inpl && !deficit ? bi.p : bo.p;
        size_t ol = inpl && !deficit ? n : on;
        int af = g_alloc_fail;
        int r = call([&] {
            if (par) return dir ? WBCRYPTO_gcm_parallel_decrypt(s.g, ip, n, op, ol) : WBCRYPTO_gcm_parallel_encrypt(s.g, ip, n, op, ol);
            return dir ? WBCRYPTO_gcm_decrypt(s.g, ip, n, op, ol) : WBCRYPTO_gcm_encrypt(s.g, ip, n, op, ol);
        });
        bi.check("gcm input"); bo.check("gcm output");
        ev("crypt %zu dir %d par %d small %zu = %d", n, dir, par, deficit, r);
        if (deficit) {
            if (r == 1) violate("refusal-missing", "%s gcm call with %zu input bytes and %zu output bytes returned success", kn, n, on);
            if (!inpl) eq("input-changed", bi.bytes(), in, "%s gcm refused call changed its input", kn);
            return;
        }
        if (g_alloc_fail != af) {                     // memory ran out inside a parallel call: it must say so; the stream is abandoned
            if (r == 1) { /* fall through: must be right */ } else { reset(s); return; }
        } else if (r != 1) violate("crypt-failed", "%s gcm %s of %zu bytes returned %d", kn, dir ? "decrypt" : "encrypt", n, r);
        Bytes want = s.ref.crypt(!dir, in);
        Bytes got(op, op + n);
        char where[200]; snprintf(where, sizeof where, "%s %s gcm %s of %zu bytes (stream offset %llu%s)", kn, par ? "parallel" : "serial", dir ? "decrypt" : "encrypt", n, (unsigned long long)(s.ref.clen - n), inpl ? ", in place" : "");
        eq("wrong-output", got, want, "%s", where);
        if (!inpl) eq("input-changed", bi.bytes(), in, "%s changed its input", where);
        for (size_t i = n; i < on && !inpl; i++) if (bo.p[i] != 0xC7) violate("spare-touched", "%s wrote past the message into the spare output", where);
        evhash("out", got.data(), got.size());
        s.data = true; if (n % 16) s.partial = true;
        sig(mix64(s.k->kind * 8 + dir * 2 + par, mix64(n / 16 > 40 ? 40 : n / 16, (n % 16 != 0) + 2 * inpl + 4 * (s.ref.clen != n))));
    } else if (o.name == "fin") {
        if (!s.iv || s.fin) return;
        size_t tl = (size_t)o.get("taglen", 16); if (tl > 16) tl = 16;
        Buf t(tl, (int)o.get("al"));
        int r = call([&] { return WBCRYPTO_gcm_finish(s.g, t.p, tl); });
        t.check("gcm tag");
        if (r != 1) violate("finish-failed", "%s gcm_finish returned %d", kn, r);
        Bytes want = s.ref.tag(); want.resize(tl);
        eq("wrong-tag", t.bytes(), want, "%s tag (aad %llu, data %llu bytes)", kn, (unsigned long long)s.ref.alen, (unsigned long long)s.ref.clen);
        evhash("tag", t.p, tl);
        s.fin = true; s.iv = false;
    } else if (o.name == "free") {
        lib([&] { WBCRYPTO_gcm_free(s.g); });
        s.g = nullptr;
    }
}
void exec(const char *prop, const Plan &p, int start) {
    Slot sl[4];
    for (auto &o : p.ops) if (o.name == "new") get_key((int)o.get("kind"), (int)o.get("key"));
    if (p.e("conc")) {
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t) mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]);
            fs.push_back([&, t, mine] { for (int i : mine) do_op(prop, sl[t], p.ops[(size_t)i], i); });
        }
        run_concurrent(fs, ops);
    } else
        for (size_t i = (size_t)start; i < p.ops.size(); i++) do_op(prop, sl[p.ops[i].get("slot") & 3], p.ops[i], (int)i);
}
void gen_msg(Rng &r, Plan &p, int slot, bool P1) {
    double big = P1 ? 0.01 : 0.06;
    Op &iv = p.add("setiv"); iv.set("slot", slot).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 7));
    if (r.chance(0.25)) iv.set("mode", 1).set("back", r.range(0, 2047));
    else iv.set("ivlen", r.chance(0.5) ? 12 : r.chance(0.3) ? 16 : r.chance(big) ? r.pick(std::vector<int64_t>{255, 256, 257, 4096, 8191, 8192, 8200, 65535, 65536, 65600}) + r.range(0, 3) : r.range(1, 70));
    if (r.chance(0.6)) p.add("aad").set("slot", slot).set("len", r.chance(0.2) ? 0 : r.chance(0.3) ? r.range(1, 6) * 16 : r.chance(big) ? r.pick(std::vector<int64_t>{255, 256, 4095, 4096, 8191, 8192, 65535, 65536, 131072}) + r.range(0, 3) : r.range(1, 100)).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 7));
    int chunks = (int)r.range(0, 4), dir = (int)r.range(0, 1);
    for (int c = 0; c < chunks; c++) {
        Op &o = p.add("crypt"); o.set("slot", slot).set("dir", dir);
        int n;
        if (P1) n = r.chance(0.5) ? (int)r.range(0, 12) * 16 : (int)r.range(0, 40) * 16; else n = (lenpick(r, 5000) / 16) * 16;
        if (c == chunks - 1 && r.chance(0.7)) n += (int)r.range(1, 15);
        if (r.chance(0.08)) n = 0;
        if (r.chance(P1 ? 0.002 : 0.01)) n = (int)(r.pick(std::vector<int64_t>{4080, 65520, 65536, 131072, 1048560, 1048592}) / (P1 ? 4 : 1) / 16 * 16);
        o.set("len", n).set("seed", (int64_t)(r.next() >> 16)).set("par", P1 ? r.chance(0.85) : r.chance(0.1)).set("inpl", r.chance(0.3));
        o.set("al", r.range(0, 7)).set("al2", r.range(0, 7));
        if (r.chance(0.1)) o.set("shape", r.range(1, 2));
        if (r.chance(0.08) && n) o.set("small", r.chance(0.5) ? 1 : r.range(1, n));
        else if (r.chance(0.2)) o.set("spare", r.range(1, 20));
    }
    if (r.chance(0.9)) p.add("fin").set("slot", slot).set("taglen", r.chance(0.7) ? 16 : r.range(0, 16));
}
int kindpick(Rng &r) { int x = (int)r.range(0, 9); return x < 3 ? KAES : x < 6 ? KSM4 : x < 8 ? KWBAES : KWBSM4; }
void gen(Rng &r, Plan &p, bool P1) {
    int slots = (int)r.range(1, P1 ? 2 : 3);
    std::vector<Plan> per;
    for (int s = 0; s < slots; s++) {
        Plan q; q.add("new").set("slot", s).set("kind", kindpick(r)).set("key", r.range(0, POOLIDX - 1)).set("via", r.range(0, 1));
        int msgs = (int)r.range(1, P1 ? 2 : 4), okind = (int)q.ops[0].get("kind");
        int own = r.chance(P1 ? 0.15 : 0.3) ? (int)r.range(1, 3) : 0;                 // a key context of the slot's own, given other keys as the run goes
        if (own) { q.ops[0].set("own", 1).set("key", r.range(0, 40)); if (r.chance(0.5)) msgs++; }
        for (int m = 0; m < msgs; m++) {
            gen_msg(r, q, s, P1);
            if (r.chance(own ? 0.4 : 0.1)) { q.add("free").set("slot", s); Op &o = q.add("new").set("slot", s).set("kind", own && r.chance(0.8) ? okind : kindpick(r)).set("key", r.range(0, own ? 40 : POOLIDX - 1)).set("via", r.range(0, 1)); if (own) o.set("own", own == 3 ? r.range(1, 2) : own); }
        }
        per.push_back(q);
    }
    std::vector<size_t> at(per.size(), 0);
    for (;;) {                                      // random interleaving of the slots' histories
        std::vector<size_t> c; for (size_t i = 0; i < per.size(); i++) if (at[i] < per[i].ops.size()) c.push_back(i);
        if (c.empty()) break;
        size_t i = r.pick(c); int burst = (int)r.range(1, 4);
        while (burst-- && at[i] < per[i].ops.size()) p.ops.push_back(per[i].ops[at[i]++]);
    }
    if (P1) { if (r.chance(0.4)) p.env["procs"] = r.pick(std::vector<int64_t>{1, 2, 3, 6, 8, 12, 16, 24, 64}); p.env["teamcap"] = r.chance(0.5) ? 0 : r.range(1, 3); p.env["conc"] = slots > 1 && r.chance(0.3); }
    else p.env["conc"] = slots > 1 && r.chance(0.35);
}
void gen1(Rng &r, Plan &p) {
    int64_t i = p.e("idx") - 20000000;                // build B only: one huge message, and one in 100 plans
    if (i >= 0 && (i == 0 || i % 100 == 3)) {
        Op &o = p.add("huge"); o.set("par", 1).set("key", r.range(0, POOLIDX - 1)).set("seed", (int64_t)(r.next() >> 16)).set("dir", r.range(0, 1));
        if (i == 0) o.set("len", (1ll << 31) + r.range(0, 40)); else o.set("len", r.range(1 << 16, 1 << (r.chance(0.2) ? 24 : 21)));
        p.env["teamcap"] = r.chance(0.5) ? 0 : r.range(1, 3);
        p.env["bigmem"] = 1; p.env["nofan"] = i == 0; p.env["cpu"] = 300; return;
    }
    gen(r, p, true);
}
void gen2(Rng &r, Plan &p) {
    int64_t i = p.e("idx") - 20000000;                // build B only: three huge messages, then one in 500 plans
    if (i >= 0 && (i == 0 || i == 1 || i == 2 || i % 500 == 3)) {
        Op &o = p.add("huge"); o.set("key", r.range(0, POOLIDX - 1)).set("seed", (int64_t)(r.next() >> 16)).set("dir", i == 0 ? 0 : i == 1 ? 1 : r.range(0, 1));
        if (i < 2) o.set("len", (1ll << 31) + r.range(0, 40)); else if (i == 2) o.set("aadlen", (1ll << 29) + r.range(0, 40)).set("len", r.range(0, 40));
        else o.set("len", r.range(1 << 20, 1 << 24)).set("aadlen", r.chance(0.5) ? r.range(1 << 20, 1 << 24) : 0);
        p.env["bigmem"] = p.env["nofan"] = 1; p.env["cpu"] = 300; return;
    }
    gen(r, p, false);
}
void exec1(const Plan &p, int s) { exec("P01", p, s); }
void exec2(const Plan &p, int s) { exec("P02", p, s); }
RegMod r1(Module{"P01", gen1, exec1, "sp", 8});
RegMod r2(Module{"P02", gen2, exec2, "asp", 3});
}
