// P11: CBC call histories on shared key contexts
#include "lib.h"
#include <openssl/evp.h>
namespace {
struct Slot { bool have = false; Key *k = nullptr; Bytes iv, msg, ct; };
int cbc(Key &k, bool dec, int via, const u8 *in, size_t n, u8 *out, size_t max, size_t *use, u8 *iv) {
    if (!dec && via) return WBCRYPTO_cbc128_encrypt(in, n, out, max, use, k.ctx, iv, block_fn(k.kind));
    switch (k.kind) {
        case KAES: return dec ? WBCRYPTO_aes_cbc_decrypt(in, n, out, max, use, (WBCRYPTO_aes_context *)k.ctx, iv) : WBCRYPTO_aes_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_aes_context *)k.ctx, iv);
        case KSM4: return dec ? WBCRYPTO_sm4_cbc_decrypt(in, n, out, max, use, (WBCRYPTO_sm4_context *)k.ctx, iv) : WBCRYPTO_sm4_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_sm4_context *)k.ctx, iv);
        case KWBAES: return WBCRYPTO_wbaes_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_wbaes_context *)k.ctx, iv);
        default: return dec ? WBCRYPTO_wbsm4_cbc_decrypt(in, n, out, max, use, (WBCRYPTO_wbsm4_context *)k.ctx2, iv) : WBCRYPTO_wbsm4_cbc_encrypt(in, n, out, max, use, (WBCRYPTO_wbsm4_context *)k.ctx, iv);
    }
}
Bytes ref_dec(const Block &b, const Bytes &iv, const Bytes &c) {
    Bytes o(c.size()); const u8 *v = iv.data();
    for (size_t i = 0; i + 16 <= c.size(); i += 16) { u8 t[16]; b.dec(&c[i], t); for (int j = 0; j < 16; j++) o[i + j] = t[j] ^ v[j]; v = &c[i]; }
    return o;
}
void huge(const Op &o);
void do_op(Slot &s, const Op &o, int idx, bool strict) {
    sim_set_op(idx); S->ctr[C_OPS]++;
    int af = g_alloc_fail; bool inpl = o.get("inpl");
    if (o.name == "huge") { huge(o); return; }
    if (o.name == "enc") {
        int kind = (int)o.get("kind"); if (kind < 0 || kind > KWBSM4) return;
        int slot = (int)o.get("slot") & 3; bool own = o.get("own") && kind <= KSM4;
        if (own) s.have = false;                                           // the slot's own key context changes
        Key &k = own ? own_key(slot, kind, (int)o.get("key"), (int)o.get("own")) : get_key(kind, (int)o.get("key"));
        Bytes msg = rbytes((uint64_t)o.get("seed"), (size_t)o.get("len"), (int)o.get("shape")), iv = rbytes((uint64_t)o.get("seed") + 1, 16, (int)o.get("ivshape"));
        if (o.get("last") && !msg.empty()) msg.back() = (u8)o.get("last");
        size_t n = msg.size(), pl = (n + 15) / 16 * 16, small = std::min((size_t)o.get("small"), pl), max = small ? pl - small : pl + (size_t)o.get("spare");
        if (inpl && max < n) inpl = false;
        Bytes padded = msg; padded.resize(pl, (u8)(pl - n));
        Buf bi(msg, (int)o.get("al")), bo(max, (int)o.get("al2")), bv(iv, (int)o.get("al"));
        if (inpl && n) memcpy(bo.p, msg.data(), n);
        size_t use = 0xdead;
        int r = call([&] { return cbc(k, false, (int)o.get("via"), inpl ? bo.p : bi.p, n, bo.p, max, &use, bv.p); });
        bi.check("cbc input"); bo.check("cbc output"); bv.check("cbc iv");
        ev("enc %s %zu max %zu = %d", kind_name[kind], n, max, r);
        char where[160]; snprintf(where, sizeof where, "%s cbc_encrypt of %zu bytes into %zu bytes%s", kind_name[kind], n, max, inpl ? " (in place)" : "");
        if (!inpl) eq("input-changed", bi.bytes(), msg, "%s changed its input", where);
        if (small) { if (r == 1) violate("refusal-missing", "%s returned success", where); return; }
        if (r != 1) { if (g_alloc_fail == af) violate("encrypt-failed", "%s returned %d", where, r); return; }
        if (use != pl) violate("wrong-length", "%s reports %zu bytes, expected %zu", where, use, pl);
        Bytes ct(bo.p, bo.p + pl);
        eq("wrong-ciphertext", ct, cbc_ref_enc(*k.blk, iv, padded), "%s", where);
        evhash("ct", ct.data(), ct.size());
        s.have = true; s.k = &k; s.iv = iv; s.msg = msg; s.ct = ct;
        sig(mix64((uint64_t)kind, mix64(std::min<size_t>(n / 16, 30) * 16 + n % 16, inpl)));
    } else if (o.name == "dec" || o.name == "decr") {
        Key *k; Bytes ct, iv; bool own = o.name == "dec";
        if (own) { if (!s.have || s.k->kind == KWBAES) return; k = s.k; ct = s.ct; iv = s.iv; }
        else { int kind = (int)o.get("kind"); if (kind < 0 || kind > KWBSM4 || kind == KWBAES) return; k = &get_key(kind, (int)o.get("key")); ct = rbytes((uint64_t)o.get("seed"), (size_t)o.get("len") / 16 * 16); iv = rbytes((uint64_t)o.get("seed") + 1, 16); }
        size_t n = ct.size(), small = std::min((size_t)o.get("small"), n), max = small ? n - small : n + (size_t)o.get("spare");
        if (small) inpl = false;
        Buf bi(ct, (int)o.get("al")), bo(max, (int)o.get("al2")), bv(iv, (int)o.get("al"));
        if (inpl && n) memcpy(bo.p, ct.data(), n);
        size_t use = 0xdead;
        int r = call([&] { return cbc(*k, true, 0, inpl ? bo.p : bi.p, n, bo.p, max, &use, bv.p); });
        bi.check("cbc input"); bo.check("cbc output"); bv.check("cbc iv");
        ev("dec %s %zu max %zu = %d use %zu", kind_name[k->kind], n, max, r, use);
        char where[160]; snprintf(where, sizeof where, "%s cbc_decrypt of %zu bytes into %zu bytes%s", kind_name[k->kind], n, max, inpl ? " (in place)" : "");
        if (!inpl) eq("input-changed", bi.bytes(), ct, "%s changed its input", where);
        if (small) { if (r == 1) violate("refusal-missing", "%s returned success", where); return; }
        if (r != 1) { if (g_alloc_fail == af) violate("decrypt-failed", "%s returned %d", where, r); return; }
        if (own) {
            size_t m = s.msg.size(); u8 last = m ? s.msg.back() : 0;
            bool amb = m && m % 16 == 0 && last >= 1 && last <= 16;      // known finding: such a message ends like padding
            if (use != m && amb && use == m - last) { if (strict) violate("padding-ambiguity", "%s: the message of %zu bytes ends with byte %u and comes back as %zu bytes", where, m, last, use); }
            else if (use != m) violate("wrong-length", "%s reports %zu bytes, the message had %zu", where, use, m);
            eq("wrong-plaintext", Bytes(bo.p, bo.p + use), Bytes(s.msg.begin(), s.msg.begin() + (long)use), "%s", where);
        } else {
            Bytes pt = ref_dec(*k->blk, iv, ct); size_t strip = n && pt[n - 1] <= 16 ? pt[n - 1] : 0;
            if (use != n && use != n - strip) violate("wrong-length", "%s reports %zu bytes (last plaintext byte %u)", where, use, n ? pt[n - 1] : 0);
            eq("wrong-plaintext", Bytes(bo.p, bo.p + use), Bytes(pt.begin(), pt.begin() + (long)use), "%s", where);
        }
        sig(mix64(100 + (uint64_t)k->kind, mix64(std::min<size_t>(n / 16, 30), inpl + 2 * own)));
    }
}
// a message of more than 2^31 bytes, encrypted and decrypted in place, compared piecewise with OpenSSL
void piece(uint64_t seed, uint64_t at, u8 *o, size_t n) { Rng r(mix64(seed, at)); for (size_t i = 0; i < n; i += 64) { uint64_t x = r.next(); memcpy(o + i, &x, n - i < 8 ? n - i : 8); } }
void huge(const Op &o) {
    Key &k = get_key(KAES, (int)o.get("key")); size_t n = (size_t)o.get("len"), pl = (n + 15) / 16 * 16, use = 0; const size_t PC = 1 << 20; uint64_t seed = (uint64_t)o.get("seed");
    u8 *m = (u8 *)calloc(1, pl + 64), *t = (u8 *)calloc(1, PC), *w = (u8 *)calloc(1, PC + 32); Bytes iv = rbytes(seed, 16), v = iv;
    if (!m || !t || !w) { ev("huge message skipped: no memory"); return; }
    for (size_t i = 0; i < n; i += PC) piece(seed, i, m + i, std::min(PC, n - i));
    memset(m + pl, 0xC7, 64);
    auto guard = [&] { for (int i = 0; i < 64; i++) if (m[pl + i] != 0xC7) violate("buffer-overflow", "cbc call of %zu bytes wrote past its output", n); };
    int r = call([&] { return WBCRYPTO_aes_cbc_encrypt(m, n, m, pl, &use, (WBCRYPTO_aes_context *)k.ctx, v.data()); });
    guard(); if (r != 1 || use != pl) violate("encrypt-failed", "aes cbc_encrypt of %zu bytes returned %d, length %zu", n, r, use);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); EVP_CIPHER_CTX_set_padding(c, 0); int l = 0;
    EVP_EncryptInit_ex(c, EVP_aes_128_cbc(), nullptr, k.k16.data(), iv.data()); EVP_CIPHER_CTX_set_padding(c, 0);
    for (size_t i = 0; i < pl; i += PC) {
        size_t q = std::min(PC, pl - i), have = std::min(PC, n - i); memset(t, (int)(pl - n), PC); memset(t, 0, have); piece(seed, i, t, have);
        EVP_EncryptUpdate(c, w, &l, t, (int)q);
        if (memcmp(w, m + i, q)) violate("wrong-ciphertext", "aes cbc_encrypt of %zu bytes differs in the megabyte at %zu", n, i);
    }
    EVP_CIPHER_CTX_free(c); v = iv;
    r = call([&] { return WBCRYPTO_aes_cbc_decrypt(m, pl, m, pl, &use, (WBCRYPTO_aes_context *)k.ctx, v.data()); });
    guard(); if (r != 1 || use != n) violate("decrypt-failed", "aes cbc_decrypt of %zu bytes returned %d, length %zu (expected %zu)", pl, r, use, n);
    for (size_t i = 0; i < n; i += PC) { size_t q = std::min(PC, n - i); memset(t, 0, PC); piece(seed, i, t, q); if (memcmp(t, m + i, q)) violate("wrong-plaintext", "aes cbc_decrypt of %zu bytes differs in the megabyte at %zu", pl, i); }
    free(m); free(t); free(w); probe(0); ev("huge %zu", n);
}
void exec(const Plan &p, int start) {
    Slot sl[4]; bool strict = p.e("strict");
    for (auto &o : p.ops) { int k = (int)o.get("kind", -1); if (k >= 0 && k <= KWBSM4) get_key(k, (int)o.get("key")); }
    if (p.e("conc")) {
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t) mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]); fs.push_back([&, t, mine] { for (int i : mine) do_op(sl[t], p.ops[(size_t)i], i, strict); });
        }
        run_concurrent(fs, ops);
    } else for (size_t i = (size_t)start; i < p.ops.size(); i++) do_op(sl[p.ops[i].get("slot") & 3], p.ops[i], (int)i, strict);
}
void gen(Rng &r, Plan &p) {
    if (p.e("idx") == 20000000) { p.add("huge").set("len", (1ll << 31) + r.range(1, 15)).set("key", r.range(0, 2)).set("seed", (int64_t)(r.next() >> 16)); p.env["bigmem"] = p.env["nofan"] = 1; p.env["cpu"] = 300; return; }
    int n = (int)r.range(3, 16), slots = (int)r.range(1, 4); bool samekey = r.chance(0.5); int sk = (int)r.range(0, 3), si = (int)r.range(0, 2);
    int own[4]; for (int &w : own) w = r.chance(0.15) ? 1 + (int)r.range(0, 1) : 0;      // slots with a key context of their own, given other keys as the run goes
    auto common = [&](Op &o, int len) {
        o.set("inpl", r.chance(0.3)).set("al", r.range(0, 15)).set("al2", r.range(0, 15));
        if (r.chance(0.1) && len) o.set("small", r.chance(0.5) ? r.range(1, 17) : r.range(1, len)); else if (r.chance(0.3)) o.set("spare", r.range(1, 40));
    };
    for (int i = 0; i < n; i++) {
        int s = (int)r.range(0, slots - 1), x = (int)r.range(0, 9), kind = samekey ? sk : (int)r.range(0, 3), key = samekey ? si : (int)r.range(0, 2);
        int len = r.chance(0.3) ? (int)r.range(0, 20) * 16 : lenpick(r, 5000);
        bool ow = own[s]; if (ow) { kind = own[s] - 1; key = (int)r.range(0, 40); }
        if (x < 5) {
            Op &o = p.add("enc"); if (ow) o.set("own", r.chance(0.7) ? 1 : 2);
            o.set("slot", s).set("kind", kind).set("key", key).set("len", len).set("seed", (int64_t)(r.next() >> 16)).set("via", r.chance(0.2));
            if (r.chance(0.2)) o.set("shape", r.range(1, 2));
            if (r.chance(0.1)) o.set("ivshape", r.range(1, 2));
            if (r.chance(0.4)) o.set("last", r.chance(0.7) ? r.range(1, 17) : r.range(1, 255));
            common(o, len);
        } else if (x < 9) { Op &o = p.add("dec"); o.set("slot", s); common(o, 16); }
        else { Op &o = p.add("decr"); o.set("slot", s).set("kind", kind == KWBAES ? KWBSM4 : kind).set("key", key).set("len", len).set("seed", (int64_t)(r.next() >> 16)); common(o, len); }
    }
    p.env["conc"] = slots > 1 && r.chance(0.35);
}
RegMod r11(Module{"P11", gen, exec, "asp", 3});
}
