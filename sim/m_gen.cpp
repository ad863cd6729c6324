// P09 (tables compute the reference cipher for every random draw) and P18 (table generation terminates)
#include "lib.h"
extern "C" void SetRandSeed(unsigned int);
namespace {
enum { G_WBAES, G_WBSM4, G_SE, G_EE, G_MASK, NG };
const char *gname[NG] = {"wbaes", "wbsm4", "se_wbsm4", "wbgcm_ee", "wbgcm_mask"};
struct GS { int alg = -1, dir = 1; void *c = nullptr, *d = nullptr; bool keyed = false; Bytes k16; };
bool blocks_ok(GS &g, int n, uint64_t seed, std::string &why) {
    Bytes in = rbytes(seed, 16 * (size_t)n), out(in.size());
    if (n > 2) { memset(&in[0], 0, 16); memset(&in[16], 0xff, 16); }
    int bad = 0;
    lib_quiet([&] {
        for (int i = 0; i < n; i++) {
            u8 *a = &in[16 * i], *b = &out[16 * i]; int r;
            if (g.alg == G_WBAES) r = WBCRYPTO_wbaes_encrypt(a, b, (WBCRYPTO_wbaes_context *)g.c);
            else if (g.alg == G_WBSM4) r = g.dir ? WBCRYPTO_wbsm4_encrypt(a, b, (WBCRYPTO_wbsm4_context *)g.c) : WBCRYPTO_wbsm4_decrypt(a, b, (WBCRYPTO_wbsm4_context *)g.c);
            else r = g.dir ? WBCRYPTO_se_wbsm4_encrypt(a, b, (WBCRYPTO_se_wbsm4_context *)g.c) : WBCRYPTO_se_wbsm4_decrypt(a, b, (WBCRYPTO_se_wbsm4_context *)g.c);
            if (r != 1) bad++;
        }
    });
    Block ref(g.alg == G_WBAES ? KAES : KSM4, g.k16);
    for (int i = 0; i < n; i++) {
        u8 w[16]; if (g.dir) ref.enc(&in[16 * i], w); else ref.dec(&in[16 * i], w);
        if (bad || memcmp(w, &out[16 * i], 16)) { why = (bad ? "a call returned an error; block " : "block ") + hex(Bytes(in.begin() + 16 * i, in.begin() + 16 * i + 16)) + " gives " + hex(Bytes(out.begin() + 16 * i, out.begin() + 16 * i + 16)) + " expected " + hex(Bytes(w, w + 16)); return false; }
    }
    return true;
}
void exec(bool p9, const Plan &p, int start) {
    GS gs[3];
    for (size_t i = (size_t)start; i < p.ops.size(); i++) {
        const Op &o = p.ops[i]; sim_set_op((int)i); S->ctr[C_OPS]++;
        GS &g = gs[(unsigned)o.get("slot") % 3];
        if (o.name == "seed") { unsigned s = (unsigned)o.get("v"); lib_quiet([&] { SetRandSeed(s); }); continue; }
        if (o.name == "gen") {
            int alg = (int)o.get("alg") % NG, dir = (int)o.get("dir") & 1;
            if (alg != G_WBSM4 && alg != G_SE) dir = 1;
            bool reuse = o.get("reuse") && g.alg == alg && g.dir == dir && g.c;
            if (!reuse) {
                g = GS(); g.alg = alg; g.dir = dir;
                if (alg == G_WBAES) g.c = call([] { return WBCRYPTO_wbaes_context_init(); });
                else if (alg == G_WBSM4) { int dm = o.get("nd") ? (int)o.get("nd") - 1 : 1 + (int)(o.get("dummy") & 3); g.c = call([&] { return WBCRYPTO_wbsm4_context_init(dir, dm); }); }
                else if (alg == G_SE) g.c = call([&] { return WBCRYPTO_se_wbsm4_context_init(dir); });
                else if (alg == G_EE) g.c = sim_malloc(sizeof(WBCRYPTO_wbaes_wbgcm_ee_context));
                else { g.c = call([] { return WBCRYPTO_wbaes_wbgcm_mask_init_table(); }); g.d = call([] { return WBCRYPTO_wbaes_wbgcm_mask_init_table(); }); }
                if (!g.c || (alg == G_MASK && !g.d)) violate("init-failed", "%s context_init returned NULL", gname[alg]);
            }
            Bytes raw = rbytes((uint64_t)o.get("seed"), (size_t)std::max<int64_t>(1, o.get("keylen", 16)), (int)o.get("shape"));
            Buf kb(raw, (int)o.get("al"));
            int r = 1;
            lib([&] {
                if (alg == G_WBAES) r = WBCRYPTO_wbaes_gen_table((WBCRYPTO_wbaes_context *)g.c, kb.p, kb.n);
                else if (alg == G_WBSM4) r = WBCRYPTO_wbsm4_gen_table((WBCRYPTO_wbsm4_context *)g.c, kb.p, kb.n);
                else if (alg == G_SE) r = WBCRYPTO_se_wbsm4_gen_table((WBCRYPTO_se_wbsm4_context *)g.c, kb.p, kb.n);
                else if (alg == G_EE) WBCRYPTO_wbaes_wbgcm_ee_gen_table((WBCRYPTO_wbaes_wbgcm_ee_context *)g.c, kb.p, kb.n);
                else WBCRYPTO_wbaes_wbgcm_mask_gen_table((WBCRYPTO_wbaes_wbgcm_mask_context *)g.c, (WBCRYPTO_wbaes_wbgcm_mask_context *)g.d, kb.p, kb.n);
            }, 96 << 10);
            kb.check("key"); 
            ev("gen %s dir %d key %zu reuse %d = %d", gname[alg], dir, raw.size(), reuse, r);
            probe(alg);
            sig(mix64(alg * 2 + dir, mix64((uint64_t)o.get("dummy") + 8 * reuse, raw.size())));
            if (p9) {
                eq("key-changed", kb.bytes(), raw, "%s gen_table changed the key", gname[alg]);
                if (r != 1) violate("gen-failed", "%s gen_table with a %zu-byte key returned %d", gname[alg], raw.size(), r);
                g.k16 = pad_key(raw); g.keyed = true;
                std::string why;
                if (!blocks_ok(g, alg == G_SE ? 120 : 1200, (uint64_t)o.get("seed") + 3, why)) violate("wrong-tables", "%s (direction %d, %zu-byte key%s): %s", gname[alg], dir, raw.size(), reuse ? ", regenerated in a used context" : "", why.c_str());
            }
        } else if (o.name == "use" && p9) {
            std::string why;
            if (g.keyed && !blocks_ok(g, 100, (uint64_t)o.get("seed"), why)) violate("wrong-tables", "%s tables changed after later generations: %s", gname[g.alg], why.c_str());
        }
    }
}
void gen(Rng &r, Plan &p, bool p9) {
    int n = (int)r.range(1, p9 ? 3 : 2);
    if (r.chance(0.3)) p.add("seed").set("v", r.chance(0.5) ? (int64_t)(r.next() & 0xffffffffu) : r.range(0, 1) ? 0xffffffffll - r.range(0, 600) : 0);
    p.env["randmode"] = r.chance(0.6) ? 0 : r.range(1, 2);
    for (int i = 0; i < n; i++) {
        int x = (int)r.range(0, 19), alg = p9 ? (x < 6 ? G_WBAES : x < 13 ? G_WBSM4 : G_SE) : (x < 5 ? G_WBAES : x < 10 ? G_WBSM4 : x < 16 ? G_SE : x < 18 ? G_EE : G_MASK);
        int kl = r.chance(0.5) ? 16 : r.chance(0.5) ? (int)r.range(1, 15) : (int)r.range(17, 40);
        Op &o = p.add("gen"); o.set("alg", alg).set("dir", r.range(0, 1)).set("dummy", r.range(0, 3)).set("slot", r.range(0, 1)).set("keylen", kl).set("seed", (int64_t)(r.next() >> 16)).set("reuse", r.chance(0.6)).set("al", r.range(0, 7));
        if (r.chance(0.15)) o.set("shape", r.range(1, 2));
        if (r.chance(0.08)) o.set("nd", r.chance(0.3) ? 1 : r.range(5, 90));          // no dummy rounds, or many
        if (p9 && r.chance(0.5) && i) {               // regenerate what an earlier operation made
            for (auto &q : p.ops) if (q.name == "gen" && &q != &p.ops.back()) { p.ops.back().set("alg", q.get("alg")).set("dir", q.get("dir")).set("slot", q.get("slot")).set("reuse", 1); break; }
        }
    }
    if (p9) for (int s = 0; s < 2; s++) p.add("use").set("slot", s).set("seed", (int64_t)(r.next() >> 16));
}
void g9(Rng &r, Plan &p) { gen(r, p, true); } void g18(Rng &r, Plan &p) { gen(r, p, false); }
void e9(const Plan &p, int s) { exec(true, p, s); } void e18(const Plan &p, int s) { exec(false, p, s); }
RegMod r9(Module{"P09", g9, e9, "", 0});
RegMod r18(Module{"P18", g18, e18, "", 0});
}
