// P13 (FF1/FF3), P14 (FPE with MAC), P15 (phone, ID card, Chinese text)
#include "lib.h"
namespace {
const char DIG[] = "0123456789abcdefghijklmnopqrstuvwxyz";
std::string numeral(uint64_t seed, size_t n, unsigned radix, int shape) {
    Rng r(seed); std::string s(n, '0');
    for (auto &c : s) { c = shape == 1 ? '0' : shape == 2 ? DIG[radix - 1] : DIG[r.next() % radix]; }
    return s;
}
std::string ref_ffx(int alg, const Block &b, bool enc, const std::string &x, unsigned radix, const Bytes &tw) { return alg ? ff3_ref(b, enc, x, radix, tw) : ff1_ref(b, enc, x, radix, tw); }
bool in_alphabet(const std::string &s, unsigned radix) { for (char ch : s) { const char *q = ch ? strchr(DIG, ch) : nullptr; if (!q || (unsigned)(q - DIG) >= radix) return false; } return true; }
// one character outside the radix's alphabet: the first numeral beyond it, a capital letter, punctuation, a control or high byte
void spoil(std::string &s, uint64_t v, unsigned radix) {
    if (s.empty() || !v) return;
    static const char pool[] = "AZG@`/:{~ -+.*\x01\x7f\x80\xb0\xe4\xff"; uint64_t k = mix64(v, 7);
    s[(size_t)(k % s.size())] = radix < 36 && (k >> 40) % 3 == 0 ? DIG[radix + (k >> 20) % (36 - radix)] : pool[(k >> 20) % (sizeof pool - 1)];
}
struct Str {                                            // C string in a buffer of exactly its size
    Buf b; explicit Str(const std::string &s, int al = 0) : b(s.size() + 1, al) { memcpy(b.p, s.c_str(), s.size() + 1); }
    char *c() { return (char *)b.p; }
};
struct Ctx { int kind = 0; Key *k = nullptr; unsigned radix = 10; Bytes tw; bool mac = false; void *h = nullptr; bool have = false; int alg = 0; std::string pt, ct; Bytes tag; };
void *mk(Key &k, bool mac, const u8 *t, size_t n, unsigned radix, int via) {
    if (via) return mac ? (void *)WBCRYPTO_fpe_mac_init(t, n, radix, k.ctx, block_fn(k.kind)) : (void *)WBCRYPTO_fpe_init(t, n, radix, k.ctx, block_fn(k.kind));
    const char *c = (const char *)t;
    switch (k.kind) {
        case KAES: return mac ? (void *)WBCRYPTO_aes_fpe_mac_init((WBCRYPTO_aes_context *)k.ctx, c, n, radix) : (void *)WBCRYPTO_aes_fpe_init((WBCRYPTO_aes_context *)k.ctx, c, n, radix);
        case KSM4: return mac ? (void *)WBCRYPTO_sm4_fpe_mac_init((WBCRYPTO_sm4_context *)k.ctx, c, n, radix) : (void *)WBCRYPTO_sm4_fpe_init((WBCRYPTO_sm4_context *)k.ctx, c, n, radix);
        case KWBAES: return mac ? (void *)WBCRYPTO_wbaes_fpe_mac_init((WBCRYPTO_wbaes_context *)k.ctx, c, n, radix) : (void *)WBCRYPTO_wbaes_fpe_init((WBCRYPTO_wbaes_context *)k.ctx, c, n, radix);
        default: return mac ? (void *)WBCRYPTO_wbsm4_fpe_mac_init((WBCRYPTO_wbsm4_context *)k.ctx, c, n, radix) : (void *)WBCRYPTO_wbsm4_fpe_init((WBCRYPTO_wbsm4_context *)k.ctx, c, n, radix);
    }
}
void freectx(Ctx &c) { if (c.h) lib([&] { if (c.mac) WBCRYPTO_fpe_mac_free((WBCRYPTO_fpe_mac_context *)c.h); else WBCRYPTO_fpe_free((WBCRYPTO_fpe_context *)c.h); }); c.h = nullptr; }
int crypt1(Ctx &c, int alg, bool enc, const char *in, char *out) {
    if (c.mac) {
        auto *m = (WBCRYPTO_fpe_mac_context *)c.h;
        if (alg) return enc ? WBCRYPTO_ff3_gmac_encrypt(m, in, out) : WBCRYPTO_ff3_gmac_decrypt(m, in, out);
        return enc ? WBCRYPTO_ff1_cmac_encrypt(m, in, out) : WBCRYPTO_ff1_cmac_decrypt(m, in, out);
    }
    auto *f = (WBCRYPTO_fpe_context *)c.h;
    if (alg) return enc ? WBCRYPTO_ff3_encrypt(f, in, out) : WBCRYPTO_ff3_decrypt(f, in, out);
    return enc ? WBCRYPTO_ff1_encrypt(f, in, out) : WBCRYPTO_ff1_decrypt(f, in, out);
}
// one call: format, reference and buffers checked; tag returned for MAC contexts
std::string crypt(Ctx &c, int alg, bool enc, const std::string &in, Bytes &tag, int al) {
    Str si(in, al); Buf so(in.size() + 1, al / 2);
    int r = call([&] { return crypt1(c, alg, enc, si.c(), (char *)so.p); });
    si.b.check("fpe input"); so.check("fpe output");
    char where[200]; snprintf(where, sizeof where, "%s %s%s %s of %zu characters, radix %u, %zu-byte tweak", kind_name[c.kind], alg ? "ff3" : "ff1", c.mac ? "-mac" : "", enc ? "encrypt" : "decrypt", in.size(), c.radix, c.tw.size());
    if (memcmp(si.c(), in.c_str(), in.size() + 1)) violate("input-changed", "%s changed its input", where);
    if (in.size() < 2) { if (r == 1) violate("short-accepted", "%s returned success", where); return ""; }
    if (!in_alphabet(in, c.radix)) { if (r == 1) violate("alphabet-ignored", "%s of \"%s\", which is not a numeral string of the radix, returned success", where, in.substr(0, 60).c_str()); probe(3); ev("%s refused", where); return ""; }
    if (r != 1) violate("fpe-failed", "%s returned %d", where, r);
    if (so.p[in.size()] != 0) violate("format", "%s: the result is not a string of the same length", where);
    std::string out((char *)so.p);
    if (out.size() != in.size()) violate("format", "%s: the result has %zu characters", where, out.size());
    for (char ch : out) { const char *q = strchr(DIG, ch); if (!q || (unsigned)(q - DIG) >= c.radix) violate("format", "%s: the result contains '%c'", where, ch); }
    std::string want = ref_ffx(alg, *c.k->blk, enc, in, c.radix, c.tw);
    if (!want.empty() && want != out) violate("wrong-result", "%s: %s gives %s, expected %s", where, in.substr(0, 60).c_str(), out.substr(0, 60).c_str(), want.substr(0, 60).c_str());
    if (c.mac) {
        Buf t(16, al); size_t n = 0xdead;
        r = call([&] { return alg ? WBCRYPTO_ff3_gmac_finish((WBCRYPTO_fpe_mac_context *)c.h, (char *)t.p, &n) : WBCRYPTO_ff1_cmac_finish((WBCRYPTO_fpe_mac_context *)c.h, (char *)t.p, &n); });
        t.check("fpe tag");
        if (r != 1 || n != 16) violate("finish-failed", "%s: finish returned %d, length %zu", where, r, n);
        tag = t.bytes(); evhash("tag", t.p, 16);
    }
    ev("%s = %s", where, out.substr(0, 40).c_str());
    sig(mix64((uint64_t)(c.kind * 8 + alg * 2 + enc), mix64(c.radix * 64 + std::min<size_t>(in.size(), 60), std::min<size_t>(c.tw.size(), 33))));
    return out;
}
std::map<std::string, Bytes> tags; std::map<std::string, std::string> outs;
// the result and tag of a computation depend on nothing but its parameters
void func(Ctx &c, int alg, const std::string &pt, const std::string &ct, const Bytes &tag) {
    std::string id = std::string(kind_name[c.kind]) + hex(c.k->k16, 64) + (c.mac ? "m" : "p") + std::to_string(alg) + ":" + std::to_string(c.radix) + ":" + hex(c.tw, 4096) + ":" + pt;
    auto o = outs.emplace(id, ct);
    if (!o.second && o.first->second != ct) violate("not-a-function", "the same %s encryption gave two different results", alg ? "ff3" : "ff1");
    if (c.mac) { auto t = tags.emplace(id, tag); if (!t.second && t.first->second != tag) violate("tag-mismatch", "%s %s: the tag for the same key, tweak and text differs (%s and %s)", kind_name[c.kind], alg ? "ff3-gmac" : "ff1-cmac", hex(t.first->second).c_str(), hex(tag).c_str()); }
}
void make(Ctx &c, const Op &o, bool p14) {
    c.k = o.get("own") ? &own_key((int)o.get("slot") & 3, (int)o.get("kind"), (int)o.get("key"), (int)o.get("own")) : &get_key((int)o.get("kind"), (int)o.get("key")); c.kind = c.k->kind; c.radix = (unsigned)o.get("radix", 10); c.mac = p14 || o.get("mac"); c.have = false;
    c.tw = rbytes((uint64_t)o.get("seed"), (size_t)o.get("twklen"), (int)o.get("twshape"));
    Buf t(c.tw, (int)o.get("al")); bool null = c.tw.empty() && o.get("nulltwk");
    c.h = call([&] { return mk(*c.k, c.mac, null ? nullptr : t.p, t.n, c.radix, (int)o.get("via")); });
    bool bad = c.radix < 2 || c.radix > 36;
    if (bad && c.h) violate("radix-accepted", "fpe_init accepts radix %u", c.radix);
    if (!bad && !c.h) violate("init-failed", "fpe_init returned NULL (radix %u, %zu-byte tweak)", c.radix, c.tw.size());
    t.check("tweak");
    if (t.n) memset(t.p, 0xEE, t.n);                    // the caller's tweak buffer is reused
    ev("new %s radix %u tweak %zu", kind_name[c.kind], c.radix, c.tw.size());
}
void do_op(Ctx *cs, const Op &o, int idx, bool p14) {
    sim_set_op(idx); S->ctr[C_OPS]++;
    Ctx &c = cs[(unsigned)o.get("slot") & 3]; int al = (int)o.get("al") & 15; Bytes tag;
    if (o.name == "new") { int k = (int)o.get("kind"); if (k < 0 || k > KWBSM4) return; freectx(c); make(c, o, p14); return; }
    if (!c.h) return;
    int alg = (int)o.get("alg") & 1;
    if (o.name == "enc") {
        std::string x = numeral((uint64_t)o.get("seed"), (size_t)o.get("len"), c.radix, (int)o.get("shape")); spoil(x, (uint64_t)o.get("badch"), c.radix);
        std::string y = crypt(c, alg, true, x, tag, al);
        if (y.empty()) return;
        c.have = true; c.alg = alg; c.pt = x; c.ct = y; c.tag = tag; func(c, alg, x, y, tag);
    } else if (o.name == "dec" && c.have) {
        std::string y = crypt(c, c.alg, false, c.ct, tag, al);
        if (y != c.pt) violate("round-trip", "%s %s radix %u: %s decrypts to %s", kind_name[c.kind], c.alg ? "ff3" : "ff1", c.radix, c.pt.substr(0, 60).c_str(), y.substr(0, 60).c_str());
        func(c, c.alg, y, c.ct, tag);
        if (c.mac && tag != c.tag) violate("tag-mismatch", "%s %s (radix %u, %zu characters, %zu-byte tweak): tag %s after encryption, %s after decryption", kind_name[c.kind], c.alg ? "ff3-gmac" : "ff1-cmac", c.radix, c.pt.size(), c.tw.size(), hex(c.tag).c_str(), hex(tag).c_str());
        probe(0);
    } else if (o.name == "decr") {
        std::string x = numeral((uint64_t)o.get("seed"), (size_t)o.get("len"), c.radix, (int)o.get("shape")); spoil(x, (uint64_t)o.get("badch"), c.radix);
        std::string y = crypt(c, alg, false, x, tag, al);
        if (!y.empty()) func(c, alg, y, x, tag);
    } else if (o.name == "tamper" && c.have && c.mac) {
        std::string x = c.ct; size_t at = (size_t)o.get("at") % x.size(); const char *q = strchr(DIG, x[at]);
        x[at] = DIG[((unsigned)(q - DIG) + 1 + (unsigned)o.get("by") % (c.radix - 1)) % c.radix];
        if (x == c.ct) return;
        std::string y = crypt(c, c.alg, false, x, tag, al);
        // known finding: characters beyond FF3's length limit do not enter the FF3-GMAC tag
        if (c.alg && ref_ffx(1, *c.k->blk, false, std::string(x.size(), DIG[c.radix - 1]), c.radix, c.tw).empty()) { if (tag == c.tag && P->e("strict")) violate("tamper-undetected-long", "%s ff3-gmac: decrypting a changed ciphertext (character %zu of %zu, radix %u) gives the original tag", kind_name[c.kind], at, x.size(), c.radix); return; }
        if (tag == c.tag) violate("tamper-undetected", "%s %s: decrypting a changed ciphertext (character %zu of %zu) gives the original tag", kind_name[c.kind], c.alg ? "ff3-gmac" : "ff1-cmac", at, x.size());
        probe(1);
    } else if (o.name == "retweak" && c.have && c.mac && !c.tw.empty()) {
        Ctx d = c; d.h = nullptr; d.tw[(size_t)o.get("at") % std::min<size_t>(c.alg ? 8 : 1 << 20, d.tw.size())] ^= (u8)(1 + (unsigned)o.get("by") % 255);
        Buf t(d.tw, al);
        d.h = call([&] { return mk(*d.k, true, t.p, t.n, d.radix, 0); });
        if (!d.h) violate("init-failed", "fpe_mac_init returned NULL");
        std::string y = crypt(d, d.alg, false, c.ct, tag, al);
        if (tag == c.tag) violate("tamper-undetected", "%s %s: decrypting under another tweak gives the original tag", kind_name[c.kind], c.alg ? "ff3-gmac" : "ff1-cmac");
        freectx(d); probe(2);
    } else if (o.name == "free") { freectx(c); c.have = false; }
}
void exec(bool p14, const Plan &p, int start) {
    static Ctx cs[4];
    for (auto &o : p.ops) { int k = (int)o.get("kind", -1); if (k >= 0 && k <= KWBSM4) get_key(k, (int)o.get("key")); }
    if (p.e("conc")) {
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t) mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]); fs.push_back([&, mine] { for (int i : mine) do_op(cs, p.ops[(size_t)i], i, p14); });
        }
        run_concurrent(fs, ops);
    } else for (size_t i = (size_t)start; i < p.ops.size(); i++) do_op(cs, p.ops[i], (int)i, p14);
}
void gen(Rng &r, Plan &p, bool p14) {
    int slots = (int)r.range(1, 4), n = (int)r.range(3, 14); std::vector<int> made(4, 0), own(4, 0);
    for (auto &w : own) if (r.chance(0.25)) { w = 1 + (int)r.range(0, 2); n += 3; }
    auto nw = [&](int s) {
        Op &o = p.add("new"); o.set("slot", s).set("kind", r.range(0, 3)).set("key", r.range(0, 2)).set("radix", r.chance(0.35) ? 10 : r.range(2, 36)).set("seed", (int64_t)(r.next() >> 16)).set("via", r.range(0, 1)).set("al", r.range(0, 15));
        o.set("twklen", r.chance(0.2) ? 0 : r.chance(0.3) ? 8 : r.chance(0.5) ? r.range(1, 20) : r.range(1, 70));
        if (r.chance(0.025)) o.set("twklen", r.pick(std::vector<int64_t>{255, 256, 257, 300, 1000, 4096, 32768, 65535, 65536, 70000}) + r.range(0, 2));
        if (r.chance(0.1)) o.set("nulltwk", 1);
        if (own[(size_t)s]) o.set("own", r.chance(0.7) ? 1 : 2).set("key", r.range(0, 40)).set("kind", own[(size_t)s] - 1);      // the slot's own key context, given other keys as the run goes
        if (r.chance(0.1)) o.set("twshape", r.range(1, 2));
        made[(size_t)s] = 1;
        if (r.chance(0.04)) { o.set("radix", r.pick(std::vector<int64_t>{0, 1, 37, 256, 65536, 0xffffffff})); made[(size_t)s] = 0; }
    };
    auto len = [&]() -> int64_t { int x = (int)r.range(0, 19); return x == 0 ? r.range(0, 1) : x < 8 ? r.range(2, 12) : x < 16 ? r.range(2, 40) : x < 19 ? r.range(30, 120) : r.chance(0.85) ? r.range(120, 600) : r.pick(std::vector<int64_t>{255, 256, 510, 512, 1000, 1023, 2046, 4094}) + r.range(0, 3); };
    for (int i = 0; i < n; i++) {
        int s = (int)r.range(0, slots - 1);
        if (!made[(size_t)s]) { nw(s); i++; }
        int x = (int)r.range(0, p14 ? 11 : 8);
        if (x < 4) { Op &o = p.add("enc"); o.set("slot", s).set("alg", r.range(0, 1)).set("len", len()).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 15)); if (r.chance(0.15)) o.set("shape", r.range(1, 2)); if (r.chance(0.06)) o.set("badch", r.range(1, 1 << 20)); if (r.chance(0.5)) p.add("dec").set("slot", s).set("al", r.range(0, 15)); }
        else if (x < 7) p.add("dec").set("slot", s).set("al", r.range(0, 15));
        else if (x == 7) { Op &o = p.add("decr"); o.set("slot", s).set("alg", r.range(0, 1)).set("len", len()).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 15)); if (r.chance(0.15)) o.set("badch", r.range(1, 1 << 20)); }
        else if (x == 8) { if (r.chance(own[(size_t)s] ? 0.9 : 0.4)) { if (!own[(size_t)s] || r.chance(0.5)) p.add("free").set("slot", s); made[(size_t)s] = 0; } }
        else p.add(x == 9 ? "retweak" : "tamper").set("slot", s).set("at", r.range(0, 1 << 20)).set("by", r.range(0, 1 << 20)).set("al", r.range(0, 15));
    }
    p.env["conc"] = slots > 1 && r.chance(0.3);
}
void g13(Rng &r, Plan &p) { gen(r, p, false); } void g14(Rng &r, Plan &p) { gen(r, p, true); }
void e13(const Plan &p, int s) { exec(false, p, s); } void e14(const Plan &p, int s) { exec(true, p, s); }
RegMod r13(Module{"P13", g13, e13, "sp", 2});
RegMod r14(Module{"P14", g14, e14, "sp", 2});

// ------------------------------------------------------------------ P15
enum { A_PHONE, A_ID, A_CN };
struct App { bool on = false; WBCRYPTO_fpe_app_context c; std::shared_ptr<Block> blk; int cipher = 0, ffx = 0; std::unique_ptr<Str> sc, sf; bool have = false; int what = 0; std::string pt, ct, sample; };
const char *CN[] = {"aes", "sm4", "wbaes", "wbsm4", "unknown"}; const char *FN[] = {"ff1", "ff3", "other"};
int app_call(App &a, int what, bool enc, bool ws, char *in, char *out, char *sm) {
    auto *c = &a.c;
    if (what == A_PHONE) { if (ws) return enc ? WBCRYPTO_fpe_encrypt_phone_with_sample(c, in, out, sm) : WBCRYPTO_fpe_decrypt_phone_with_sample(c, in, out, sm); return enc ? WBCRYPTO_fpe_encrypt_phone(c, in, out) : WBCRYPTO_fpe_decrypt_phone(c, in, out); }
    if (what == A_ID) { if (ws) return enc ? WBCRYPTO_fpe_encrypt_idcard_with_sample(c, in, out, sm) : WBCRYPTO_fpe_decrypt_idcard_with_sample(c, in, out, sm); return enc ? WBCRYPTO_fpe_encrypt_idcard(c, in, out) : WBCRYPTO_fpe_decrypt_idcard(c, in, out); }
    if (ws) return enc ? WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(c, in, out, sm) : WBCRYPTO_fpe_decrypt_cn_utf8_with_sample(c, in, out, sm);
    return enc ? WBCRYPTO_fpe_encrypt_cn_utf8(c, in, out) : WBCRYPTO_fpe_decrypt_cn_utf8(c, in, out);
}
std::string cnchar(uint32_t u) { std::string s; s += (char)(0xe0 | (u >> 12)); s += (char)(0x80 | ((u >> 6) & 63)); s += (char)(0x80 | (u & 63)); return s; }
std::string duo(uint32_t u) { std::string s; for (int i = 0; i < 4; i++) { s += DIG[u % 12]; u /= 12; } return s; }
// reference: the expected output, "" when the request cannot be processed; known = false when only the format is specified
struct Exp { bool ok; bool known; std::string out; std::vector<char> marked; };
Exp expect(const App &a, int what, bool enc, const std::string &in, const std::string &sample) {
    Exp e{false, true, "", {}};
    std::string src, dst; Bytes tw; int alg = a.ffx == 0 ? 0 : 1; unsigned radix = what == A_CN ? 12 : 10;
    if (what == A_CN) {
        if (in.size() % 3) return e;
        size_t n = in.size() / 3; std::vector<uint32_t> v;
        for (size_t i = 0; i < n; i++) {
            const u8 *q = (const u8 *)in.data() + 3 * i; uint32_t u = (uint32_t)(q[0] & 15) << 12 | (uint32_t)(q[1] & 63) << 6 | (q[2] & 63);
            if ((q[0] & 0xf0) != 0xe0 || (q[1] & 0xc0) != 0x80 || (q[2] & 0xc0) != 0x80 || u < 0x4e00 || u > 0x9eff) return e;
            v.push_back(u - 0x4e00);
        }
        if (sample.empty()) e.marked.assign(n, 1);
        else for (size_t i = 0; e.marked.size() < n;) { bool m = i < sample.size() && sample[i] == '*'; e.marked.push_back(m); i += m ? 1 : 3; }   // past the sample's end: kept
        std::string t; for (size_t i = 0; i < n; i++) (e.marked[i] ? src : t) += duo(v[i]);
        tw.assign(t.begin(), t.end()); tw.push_back(0);
        if (src.size() < 2) return e;
        dst = ref_ffx(alg, *a.blk, enc, src, radix, tw);
        if (dst.empty()) { e.ok = true; e.known = false; return e; }
        size_t j = 0;
        for (size_t i = 0; i < n; i++) if (e.marked[i]) { uint32_t u = 0; for (int d = 3; d >= 0; d--) u = u * 12 + (uint32_t)(strchr(DIG, dst[j + (size_t)d]) - DIG); j += 4; e.out += cnchar(u + 0x4e00); } else e.out += in.substr(3 * i, 3);
        e.ok = true; return e;
    }
    std::string body = in; bool x = what == A_ID && !in.empty() && in.back() == 'X'; if (x) body.pop_back();
    std::string t;
    for (size_t i = 0; i < body.size(); i++) { bool m = sample.empty() || (i < sample.size() && sample[i] == '*'); e.marked.push_back(m); (m ? src : t) += body[i]; }
    tw.assign(t.begin(), t.end()); tw.push_back(0);
    if (src.size() < 2 || !in_alphabet(src, 10)) return e;
    dst = ref_ffx(alg, *a.blk, enc, src, radix, tw);
    e.ok = true; if (dst.empty()) { e.known = false; if (x) e.marked.push_back(0); return e; }
    size_t j = 0; for (size_t i = 0; i < body.size(); i++) e.out += e.marked[i] ? dst[j++] : body[i];
    if (x) { e.out += 'X'; e.marked.push_back(0); }
    return e;
}
std::string app_do(App &a, int what, bool enc, const std::string &in, const std::string &sample, bool ws, int al, bool &ok) {
    Str si(in, al), ss(sample, al); Buf so(in.size(), al / 2);
    int r = call([&] { return app_call(a, what, enc, ws, si.c(), (char *)so.p, ss.c()); });
    si.b.check("fpe_app input"); ss.b.check("fpe_app sample"); so.check("fpe_app output");
    char where[300]; snprintf(where, sizeof where, "%s %s of %zu bytes (%s, %s, sample \"%s\")", enc ? "encrypt" : "decrypt", what == A_PHONE ? "phone" : what == A_ID ? "idcard" : "cn_utf8", in.size(), CN[a.cipher], FN[a.ffx], sample.c_str());
    if (memcmp(si.c(), in.c_str(), in.size() + 1) || memcmp(ss.c(), sample.c_str(), sample.size() + 1)) violate("input-changed", "%s changed its input", where);
    Exp e = expect(a, what, enc, in, ws ? sample : "");
    ev("%s = %d", where, r);
    sig(mix64((uint64_t)(what * 64 + enc * 32 + a.cipher * 4 + a.ffx), mix64(in.size(), e.ok + 2 * ws)));
    ok = r == 1;
    if (!e.ok) { if (r == 1) violate("refusal-missing", "%s returned success", where); probe(3); return ""; }
    if (r != 1) violate("app-failed", "%s returned %d", where, r);
    std::string out((char *)so.p, in.size());
    if (e.known) { if (out != e.out) violate("wrong-result", "%s: %s gives %s, expected %s", where, in.c_str(), hex(Bytes(out.begin(), out.end()), 60).c_str(), hex(Bytes(e.out.begin(), e.out.end()), 60).c_str()); }
    else {
        size_t w = what == A_CN ? 3 : 1;
        for (size_t i = 0; i < e.marked.size(); i++) {
            std::string x = out.substr(i * w, w);
            if (!e.marked[i]) { if (x != in.substr(i * w, w)) violate("format", "%s changed position %zu, which the sample does not mark", where, i); }
            else if (w == 1 ? !isdigit((u8)x[0]) : !((u8)x[0] >= 0xe4 && x >= cnchar(0x4e00) && x <= cnchar(0x9eff))) violate("format", "%s: position %zu left its alphabet", where, i);
        }
    }
    evhash("out", out.data(), out.size());
    return out;
}
void do15(App *as, const Op &o, int idx) {
    sim_set_op(idx); S->ctr[C_OPS]++;
    App &a = as[(unsigned)o.get("slot") & 3]; int al = (int)o.get("al") & 15; bool ok;
    if (o.name == "app") {
        a = App(); a.cipher = (int)(o.get("cipher") % 5); a.ffx = (int)(o.get("ffx") % 3);
        Bytes raw = rbytes((uint64_t)o.get("seed"), (size_t)std::max<int64_t>(1, o.get("keylen", 16))); Buf kb(raw, al);
        a.sc.reset(new Str(CN[a.cipher])); a.sf.reset(new Str(FN[a.ffx]));
        int r = 0; lib([&] { r = WBCRYPTO_fpe_app_init(&a.c, kb.p, kb.n, a.sc->c(), a.sf->c()); }, 96 << 10);
        if (r != 1) violate("init-failed", "fpe_app_init(%s, %s) returned %d", CN[a.cipher], FN[a.ffx], r);
        memset(kb.p, 0xEE, kb.n);
        a.blk = std::make_shared<Block>(a.cipher == 1 || a.cipher == 3 ? KSM4 : KAES, pad_key(raw)); a.on = true; ev("app %s %s", CN[a.cipher], FN[a.ffx]);
        return;
    }
    if (!a.on) return;
    if (o.name == "enc") {
        int what = (int)(o.get("what") % 3); Rng r((uint64_t)o.get("seed")); size_t n = (size_t)o.get("len"); std::string in, sm; bool ws = o.get("ws");
        int bad = (int)o.get("bad");
        if (what == A_CN) { for (size_t i = 0; i < n; i++) in += cnchar(r.chance(0.1) ? 0x4e00 : r.chance(0.1) ? 0x9eff : 0x4e00 + (uint32_t)r.range(0, 20735)); }
        else { for (size_t i = 0; i < n; i++) in += (char)('0' + r.range(0, 9)); if (what == A_ID && o.get("x")) in += 'X'; }
        if (ws) {
            int dens = (int)r.range(0, 10);
            for (size_t i = 0; i < n; i++) if (r.range(0, 9) < dens) sm += '*'; else if (what == A_CN) sm += in.substr(3 * i, 3); else sm += r.chance(0.5) ? in[i] : (char)('0' + r.range(0, 9));
            if (what == A_ID && in.size() > n && r.chance(0.6)) sm += r.chance(0.5) ? '*' : 'X';
        }
        if (bad == 1 && ws && !sm.empty()) { if (what == A_CN) sm = r.chance(0.5) ? "*" : "**"; else sm.resize((size_t)r.range(1, (int64_t)sm.size())); }      // sample of another length
        if (bad == 2 && what == A_CN && ws) sm += "**";
        if (bad == 3 && what == A_CN && n) { static const uint32_t out[] = {0x9f00, 0x4dff, 0x3002, 0xff0c, 0x9fff}; size_t k = (size_t)r.range(0, (int64_t)n - 1); in.replace(3 * k, 3, cnchar(out[r.range(0, 4)])); }
        if (bad == 4 && what == A_CN) in += r.chance(0.5) ? "a" : "ab";
        if (bad == 5 && what == A_CN) in += "EBC";
        if (bad == 6 && what != A_CN && n) { std::string b = in.substr(0, n); spoil(b, (uint64_t)r.range(1, 1 << 20), 10); in.replace(0, n, b); }   // kept as it is where the sample does not mark it, refused where it does
        std::string y = app_do(a, what, true, in, sm, ws, al, ok);
        if (!ok) return;
        a.have = true; a.what = what; a.pt = in; a.ct = y; a.sample = sm;
    } else if (o.name == "dec" && a.have) {
        bool ws = !a.sample.empty();
        std::string y = app_do(a, a.what, false, a.ct, a.sample, ws, al, ok);
        if (y != a.pt) violate("round-trip", "%s %s %s: %s comes back as %s", CN[a.cipher], FN[a.ffx], a.what == A_PHONE ? "phone" : a.what == A_ID ? "idcard" : "cn_utf8", a.pt.c_str(), y.c_str());
        probe(0);
    }
}
void e15(const Plan &p, int start) {
    static App as[4];
    if (p.e("conc")) {
        for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].name == "app") do15(as, p.ops[i], (int)i);
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t && p.ops[i].name != "app") mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]); fs.push_back([&, mine] { for (int i : mine) do15(as, p.ops[(size_t)i], i); });
        }
        run_concurrent(fs, ops);
    } else for (size_t i = (size_t)start; i < p.ops.size(); i++) do15(as, p.ops[i], (int)i);
}
void g15(Rng &r, Plan &p) {
    int slots = (int)r.range(1, 3), n = (int)r.range(3, 16); bool wb = r.chance(0.08);
    for (int s = 0; s < slots; s++) {
        int c = wb && s == 0 ? (int)r.range(2, 3) : r.chance(0.1) ? 4 : (int)r.range(0, 1);
        p.add("app").set("slot", s).set("cipher", c).set("ffx", r.chance(0.1) ? 2 : r.range(0, 1)).set("keylen", r.chance(0.6) ? 16 : r.range(1, 33)).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 15));
    }
    for (int i = 0; i < n; i++) {
        int s = (int)r.range(0, slots - 1), what = (int)r.range(0, 2);
        if (r.chance(0.6)) {
            int64_t len = what == A_PHONE ? (r.chance(0.6) ? 11 : r.range(0, 20)) : what == A_ID ? (r.chance(0.6) ? 17 + r.range(0, 1) : r.range(0, 24)) : r.chance(0.7) ? r.range(0, 8) : r.range(0, 40);
            if (r.chance(0.015)) len = r.pick(std::vector<int64_t>{63, 64, 100, 127, 128, 200, 255, 256, 300});
            Op &o = p.add("enc"); o.set("slot", s).set("what", what).set("len", len).set("seed", (int64_t)(r.next() >> 16)).set("ws", r.chance(0.65)).set("x", r.chance(0.4)).set("al", r.range(0, 15));
            if (r.chance(0.12)) o.set("bad", r.range(1, 6));
            if (r.chance(0.6)) p.add("dec").set("slot", s).set("al", r.range(0, 15));
        } else p.add("dec").set("slot", s).set("al", r.range(0, 15));
    }
    p.env["conc"] = slots > 1 && r.chance(0.3);
}
RegMod r15(Module{"P15", g15, e15, "s", 2});
}
