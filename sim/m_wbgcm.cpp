// P10: WBGCM-EE and WBGCM-MASK call histories
#include "lib.h"
namespace {
typedef WBCRYPTO_wbaes_wbgcm_ee_context EeT; typedef WBCRYPTO_wbaes_wbgcm_mask_context MaskT;
// the secret byte bijections of one set of MASK tables, read off one encryption whose counter-mode output takes every value at every position
struct Mask { u8 f[16][256], inv[16][256]; };
struct Tab { bool own = false; int kind; void *enc, *dec; std::shared_ptr<Block> blk; std::shared_ptr<Mask> mask; };
void inc32(u8 y[16]) { for (int i = 15; i >= 12; i--) if (++y[i]) break; }
struct Ref {
    GcmRef g; const Mask *m = nullptr;
    Bytes crypt(bool enc, const Bytes &in) {
        if (!m) return g.crypt(enc, in);
        Bytes out(in.size());
        for (size_t o = 0; o < in.size(); o += 16) {
            size_t n = std::min<size_t>(16, in.size() - o); u8 k[16];
            inc32(g.y); g.b->enc(g.y, k);
            for (size_t i = 0; i < n; i++) {
                if (enc) { out[o + i] = m->f[i][in[o + i] ^ k[i]]; g.X[i] ^= out[o + i]; }
                else { out[o + i] = m->inv[i][in[o + i]] ^ k[i]; g.X[i] ^= in[o + i]; }
            }
            gf_mul(g.X, g.H, g.X);
        }
        g.clen += in.size();
        return out;
    }
    Bytes tag() const { Bytes t = g.tag(); if (m) for (int i = 0; i < 16; i++) t[i] = m->f[i][t[i]]; return t; }
};
std::shared_ptr<Mask> learn(Tab &t) {
    GcmRef g; g.init(t.blk.get()); Bytes iv(12, 7); g.setiv(iv);
    Bytes zero(4096), ks = g.crypt(true, zero), pt(4096), ct(4096);
    for (size_t i = 0; i < 4096; i++) pt[i] = ks[i] ^ (u8)(i / 16);
    bool ok = true;
    lib_quiet([&] {
        auto *c = WBCRYPTO_wbaes_wbgcm_mask_init((MaskT *)t.enc);
        ok = c && WBCRYPTO_wbaes_wbgcm_mask_setiv(c, iv.data(), 12) == 1 && WBCRYPTO_wbaes_wbgcm_mask_encrypt(c, pt.data(), 4096, ct.data(), 4096) == 1;
        if (c) WBCRYPTO_wbaes_wbgcm_mask_free(c);
    });
    if (!ok) violate("mask-failed", "WBGCM-MASK encryption of a 4096-byte message fails");
    auto m = std::make_shared<Mask>();
    for (int p = 0; p < 16; p++) {
        bool seen[256] = {false};
        for (int v = 0; v < 256; v++) {
            u8 c = ct[(size_t)v * 16 + (size_t)p];
            if (seen[c]) violate("mask-not-injective", "WBGCM-MASK maps two counter-mode bytes to the same ciphertext byte (position %d)", p);
            seen[c] = true; m->f[p][v] = c; m->inv[p][c] = (u8)v;
        }
    }
    return m;
}
struct Slot {
    std::shared_ptr<Tab> t; void *g = nullptr; int mdir = 0; Ref ref;
    bool iv = false, aad = false, data = false, partial = false, fin = false; int dir = -1;
    void reset() { iv = aad = data = partial = fin = false; dir = -1; }
};
std::map<std::pair<int, int>, std::shared_ptr<Tab>> tabs;
std::shared_ptr<Tab> pool_tab(int kind, int idx) {
    auto &s = tabs[{kind, idx}];
    if (!s) {
        Key &k = get_key(kind, idx); s = std::make_shared<Tab>(); s->kind = kind; s->enc = k.ctx; s->dec = k.ctx2; s->blk = k.blk;
        if (kind == KMASK) s->mask = learn(*s);
    }
    return s;
}
int clampkind(const Op &o) { return o.get("kind") == KMASK ? KMASK : KEE; }
void do_op(Slot &s, const Op &o, int idx) {
    sim_set_op(idx); S->ctr[C_OPS]++;
    if (o.name == "new" || o.name == "fresh") {
        int kind = o.name == "new" ? clampkind(o) : o.get("mask") ? KMASK : KEE;
        if (o.name == "new") s.t = pool_tab(kind, (int)o.get("key"));
        else {
            Bytes raw = rbytes((uint64_t)o.get("seed"), (size_t)std::max<int64_t>(1, o.get("keylen", 16)));
            auto t = std::make_shared<Tab>(); t->kind = kind; t->blk = std::make_shared<Block>(KAES, pad_key(raw));
            Buf kb(raw, (int)o.get("al"));
            bool re = o.get("re") && s.t && s.t->own && s.t->kind == kind;       // regenerate in the tables used before
            t->own = true; if (re) { t->enc = s.t->enc; t->dec = s.t->dec; }
            if (kind == KEE) { if (!re) t->enc = sim_malloc(sizeof(EeT)); lib([&] { WBCRYPTO_wbaes_wbgcm_ee_gen_table((EeT *)t->enc, kb.p, kb.n); }, 96 << 10); }
            else {
                if (!re) { t->enc = call([] { return WBCRYPTO_wbaes_wbgcm_mask_init_table(); }); t->dec = call([] { return WBCRYPTO_wbaes_wbgcm_mask_init_table(); }); }
                if (!t->enc || !t->dec) violate("init-failed", "mask_init_table returned NULL");
                lib([&] { WBCRYPTO_wbaes_wbgcm_mask_gen_table((MaskT *)t->enc, (MaskT *)t->dec, kb.p, kb.n); }, 96 << 10);
            }
            kb.check("key");
            if (kind == KMASK) t->mask = learn(*t);
            s.t = t; probe(kind == KEE ? 0 : 1);
        }
        s.reset(); s.mdir = (int)o.get("dir") & 1;
        Tab &t = *s.t;
        s.g = call([&]() -> void * { return kind == KEE ? (void *)WBCRYPTO_wbaes_wbgcm_ee_init((EeT *)t.enc) : (void *)WBCRYPTO_wbaes_wbgcm_mask_init((MaskT *)(s.mdir ? t.dec : t.enc)); });
        if (!s.g) violate("init-failed", "%s init returned NULL", kind_name[kind]);
        s.ref = Ref(); s.ref.g.init(t.blk.get()); s.ref.m = t.mask.get();
        ev("%s %s dir %d", o.name.c_str(), kind_name[kind], s.mdir);
        return;
    }
    if (!s.g) return;
    bool ee = s.t->kind == KEE; const char *kn = kind_name[s.t->kind];
    auto *E = (WBCRYPTO_wbgcm_ee_context *)s.g; auto *M = (WBCRYPTO_wbgcm_mask_context *)s.g;
    if (o.name == "setiv") {
        Bytes iv;
        if (o.get("mode") == 1) {
            Bytes j = rbytes((uint64_t)o.get("seed"), 16); uint32_t c = 0xffffffffu - (uint32_t)(o.get("back") & 63);
            if (o.get("back") & 64) c = (c & 0xffff) | 0x00ff0000;
            else if (o.get("back") & 128) c = (c & 0xff) | (uint32_t)j[13] << 24 | (o.get("back") & 256 ? 0x00feff00u : 0x00fe1200u);
            j[12] = (u8)(c >> 24); j[13] = (u8)(c >> 16); j[14] = (u8)(c >> 8); j[15] = (u8)c;
            iv = s.ref.g.iv_for_counter(j.data());
        } else iv = rbytes((uint64_t)o.get("seed"), (size_t)std::max<int64_t>(1, o.get("ivlen", 12)));
        s.reset(); Buf b(iv, (int)o.get("al"));
        int r = call([&] { return ee ? WBCRYPTO_wbaes_wbgcm_ee_setiv(E, b.p, b.n) : WBCRYPTO_wbaes_wbgcm_mask_setiv(M, b.p, b.n); });
        if (r != 1) violate("setiv-failed", "wbgcm %s setiv(%zu bytes) returned %d", kn, iv.size(), r);
        s.ref.g.setiv(iv); s.iv = true; ev("setiv %zu", iv.size());
    } else if (o.name == "aad") {
        if (!s.iv || s.aad || s.data || s.fin) return;
        Bytes a = rbytes((uint64_t)o.get("seed"), (size_t)o.get("len")); Buf b(a, (int)o.get("al"));
        int r = call([&] { return ee ? WBCRYPTO_wbaes_wbgcm_ee_aad(E, b.p, b.n) : WBCRYPTO_wbaes_wbgcm_mask_aad(M, b.p, b.n); });
        if (r != 1) violate("aad-failed", "wbgcm %s aad(%zu bytes) returned %d", kn, a.size(), r);
        s.ref.g.aad(a); s.aad = true; ev("aad %zu", a.size());
    } else if (o.name == "crypt") {
        if (!s.iv || s.partial || s.fin) return;
        int dir = ee ? (s.dir >= 0 ? s.dir : (int)o.get("dir") & 1) : s.mdir; s.dir = dir;
        size_t n = (size_t)o.get("len"), deficit = (size_t)o.get("small"); bool inpl = o.get("inpl");
        if (deficit > n) deficit = n;
        Bytes in = rbytes((uint64_t)o.get("seed"), n, (int)o.get("shape"));
        size_t on = n - deficit + (deficit ? 0 : (size_t)o.get("spare"));
        Buf bi(in, (int)o.get("al")), bo(deficit || !inpl ? on : 0, (int)o.get("al2"));
        bool same = inpl && !deficit; u8 *op = same ? bi.p : bo.p; size_t ol = same ? n : on;
        int r = call([&] {
            if (ee) return dir ? WBCRYPTO_wbaes_wbgcm_ee_decrypt(E, bi.p, n, op, ol) : WBCRYPTO_wbaes_wbgcm_ee_encrypt(E, bi.p, n, op, ol);
            return dir ? WBCRYPTO_wbaes_wbgcm_mask_decrypt(M, bi.p, n, op, ol) : WBCRYPTO_wbaes_wbgcm_mask_encrypt(M, bi.p, n, op, ol);
        });
        bi.check("wbgcm input"); bo.check("wbgcm output");
        ev("crypt %zu dir %d small %zu = %d", n, dir, deficit, r);
        char where[200]; snprintf(where, sizeof where, "wbgcm %s %s of %zu bytes at stream offset %llu%s", kn, dir ? "decrypt" : "encrypt", n, (unsigned long long)s.ref.g.clen, inpl ? ", in place" : "");
        if (deficit) { if (r == 1) violate("refusal-missing", "%s with %zu output bytes returned success", where, on); eq("input-changed", bi.bytes(), in, "%s changed its input", where); return; }
        if (r != 1) violate("crypt-failed", "%s returned %d", where, r);
        Bytes want = s.ref.crypt(!dir, in), got(op, op + n);
        eq("wrong-output", got, want, "%s", where);
        if (!same) { eq("input-changed", bi.bytes(), in, "%s changed its input", where); for (size_t i = n; i < on; i++) if (bo.p[i] != 0xC7) violate("spare-touched", "%s wrote past the message", where); }
        evhash("out", got.data(), got.size());
        s.data = true; if (n % 16) s.partial = true;
        sig(mix64(s.t->kind * 8 + dir, mix64(n / 16 > 40 ? 40 : n / 16, (n % 16) * 4 + 2 * inpl + (s.ref.g.clen != n))));
    } else if (o.name == "fin") {
        if (!s.iv || s.fin) return;
        size_t tl = (size_t)o.get("taglen", 16); if (tl > 16) tl = 16;
        Buf t(tl, (int)o.get("al"));
        int r = call([&] { return ee ? WBCRYPTO_wbaes_wbgcm_ee_finish(E, t.p, tl) : WBCRYPTO_wbaes_wbgcm_mask_finish(M, t.p, tl); });
        t.check("wbgcm tag");
        if (r != 1) violate("finish-failed", "wbgcm %s finish returned %d", kn, r);
        Bytes want = s.ref.tag(); want.resize(tl);
        eq("wrong-tag", t.bytes(), want, "wbgcm %s %s tag (aad %llu, data %llu bytes)", kn, ee ? "" : s.mdir ? "decryption" : "encryption", (unsigned long long)s.ref.g.alen, (unsigned long long)s.ref.g.clen);
        evhash("tag", t.p, tl); s.fin = true; s.iv = false;
    } else if (o.name == "free") {
        lib([&] { if (ee) WBCRYPTO_wbaes_wbgcm_ee_free(E); else WBCRYPTO_wbaes_wbgcm_mask_free(M); });
        s.g = nullptr;
    }
}
void exec(const Plan &p, int start) {
    Slot sl[4];
    for (auto &o : p.ops) if (o.name == "new") pool_tab(clampkind(o), (int)o.get("key"));
    if (p.e("conc")) {
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t && p.ops[i].name != "fresh") mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]);
            fs.push_back([&, t, mine] { for (int i : mine) do_op(sl[t], p.ops[(size_t)i], i); });
        }
        run_concurrent(fs, ops);
    } else for (size_t i = (size_t)start; i < p.ops.size(); i++) do_op(sl[p.ops[i].get("slot") & 3], p.ops[i], (int)i);
}
void gen(Rng &r, Plan &p) {
    int slots = (int)r.range(1, 3); std::vector<Plan> per; bool fresh = r.chance(0.04);
    for (int s = 0; s < slots; s++) {
        Plan q; int msgs = (int)r.range(1, 4);
        auto nw = [&] {
            if (fresh && r.chance(0.5)) { q.add("fresh").set("slot", s).set("mask", r.range(0, 1)).set("dir", r.range(0, 1)).set("seed", (int64_t)(r.next() >> 16)).set("keylen", r.chance(0.5) ? 16 : r.range(1, 33)); if (r.chance(0.5)) { Op c = q.ops.back(); q.ops.push_back(c); } q.ops.back().set("seed", (int64_t)(r.next() >> 16)).set("re", 1).set("dir", r.range(0, 1)); fresh = false; }
            else q.add("new").set("slot", s).set("kind", r.range(0, 1) ? KEE : KMASK).set("key", r.range(0, POOLIDX - 1)).set("dir", r.range(0, 1));
        };
        nw();
        for (int m = 0; m < msgs; m++) {
            Op &iv = q.add("setiv"); iv.set("slot", s).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 7));
            if (r.chance(0.25)) iv.set("mode", 1).set("back", r.range(0, 511)); else iv.set("ivlen", r.chance(0.5) ? 12 : r.chance(0.3) ? 16 : r.chance(0.06) ? r.pick(std::vector<int64_t>{255, 256, 4096, 8191, 8192, 65535, 65536}) + r.range(0, 3) : r.range(1, 70));
            if (r.chance(0.6)) q.add("aad").set("slot", s).set("len", r.chance(0.2) ? 0 : r.chance(0.3) ? r.range(1, 6) * 16 : r.chance(0.06) ? r.pick(std::vector<int64_t>{255, 256, 4095, 8191, 8192, 65535, 65536}) + r.range(0, 3) : r.range(1, 100)).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 7));
            int chunks = (int)r.range(0, 4), dir = (int)r.range(0, 1);
            for (int c = 0; c < chunks; c++) {
                int n = (lenpick(r, 5000) / 16) * 16; if (c == chunks - 1 && r.chance(0.7)) n += (int)r.range(1, 15); if (r.chance(0.08)) n = 0;
                Op &o = q.add("crypt"); o.set("slot", s).set("dir", dir).set("len", n).set("seed", (int64_t)(r.next() >> 16)).set("inpl", r.chance(0.3)).set("al", r.range(0, 7)).set("al2", r.range(0, 7));
                if (r.chance(0.1)) o.set("shape", r.range(1, 2));
                if (r.chance(0.08) && n) o.set("small", r.chance(0.5) ? 1 : r.range(1, n)); else if (r.chance(0.2)) o.set("spare", r.range(1, 20));
            }
            if (r.chance(0.9)) q.add("fin").set("slot", s).set("taglen", r.chance(0.7) ? 16 : r.range(0, 16));
            if (r.chance(0.12)) { q.add("free").set("slot", s); nw(); }
        }
        per.push_back(q);
    }
    std::vector<size_t> at(per.size(), 0);
    for (;;) {
        std::vector<size_t> c; for (size_t i = 0; i < per.size(); i++) if (at[i] < per[i].ops.size()) c.push_back(i);
        if (c.empty()) break;
        size_t i = r.pick(c); int burst = (int)r.range(1, 4);
        while (burst-- && at[i] < per[i].ops.size()) p.ops.push_back(per[i].ops[at[i]++]);
    }
    p.env["conc"] = slots > 1 && r.chance(0.35);
}
RegMod r10(Module{"P10", gen, exec, "sp", 3});
}
