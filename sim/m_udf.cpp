// P21: the MySQL function fpe() inside a simulated server: statements of several sessions, rows with NULLs, unterminated and long
// values, failing allocations, concurrent sessions. udf/mysql5.cpp and udf/mysql8.cpp run unchanged over a stand-in for mysql.h.
#include "lib.h"
#include "stub/mysql.h"
extern "C" {
#define DECL(v) \
    bool udf##v##_fpe_init(UDF_INIT *, UDF_ARGS *, char *) __attribute__((weak)); \
    void udf##v##_fpe_deinit(UDF_INIT *) __attribute__((weak)); \
    char *udf##v##_fpe(UDF_INIT *, UDF_ARGS *, char *, unsigned long *, char *, char *) __attribute__((weak));
DECL(5) DECL(8)
}
namespace {
const u8 KEY[16] = {0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c};
const char *MODE[] = {"phone", "idcard", "name", "address", "", "phon", "phone ", "PHONE", "addres"};
std::string cn(uint32_t c) { std::string s; s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); return s; }
struct Session {
    bool open = false; int ver = 8, argc = 2; unsigned long maxlen[3] = {}; UDF_INIT id; bool dead = false;
    std::unique_ptr<Buf> cst[3];     // constant arguments live for the whole statement
    int mode = -1;                   // constant mode
    std::string csample, cplain; bool hasc = false, hasp = false;
};
std::string text(int mode, size_t n, uint64_t seed, int bad) {
    Rng r(seed); std::string s;
    if (mode == 0 || mode == 1) { for (size_t i = 0; i < n; i++) s += (char)('0' + r.range(0, 9)); if (mode == 1 && n && r.chance(0.3)) s.back() = 'X'; }
    else for (size_t i = 0; i < n / 3; i++) s += cn(0x4e00 + (uint32_t)r.range(0, 20735));
    if (bad == 1 && !s.empty()) s[(size_t)r.range(0, (int64_t)s.size() - 1)] = 0;
    if (bad == 2 && mode > 1) s += "a";
    if (bad == 3 && mode > 1 && s.size() >= 3) s.replace(0, 3, cn(0x3002));
    return s;
}
std::string samp(const std::string &t, int mode, uint64_t seed, int kind) {
    Rng r(seed); std::string s; int d = (int)r.range(2, 9); size_t w = mode > 1 ? 3 : 1;
    for (size_t i = 0; i < t.size(); i += w) if (r.range(0, 9) < d) s += '*'; else s += t.substr(i, w);
    if (mode == 2) { s = t; if (r.chance(0.5)) s = std::string(t.size(), '*'); }      // mysql8 wants equal sizes here
    if (kind == 1 && !s.empty()) s.pop_back();
    if (kind == 2) s += "*";
    if (kind == 3) s.clear();
    return s;
}
bool want(int ver, const std::string &mode, const std::string &t, bool has, const std::string &s, std::string &out) {   // what the library's own functions give
    bool ph = mode == "phone", idc = mode == "idcard", ch = mode == "name" || mode == "address";
    if (!ph && !idc && !ch) return false;
    if (ph && t.size() != 11) return false;
    if (idc && t.size() != 18) return false;
    if (ver == 8 && has && mode != "address" && s.size() != t.size()) return false;
    if (t.find('\0') != std::string::npos || (has && s.find('\0') != std::string::npos)) return false;
    out.assign(t.size() + 1, 0); int r = 0; std::string tt = t, ss = s; char ci[] = "sm4", ff[] = "ff1";
    lib_quiet([&] {
        WBCRYPTO_fpe_app_context a; if (WBCRYPTO_fpe_app_init(&a, KEY, 16, ci, ff) != 1) return;
        if (ph) r = has ? WBCRYPTO_fpe_encrypt_phone_with_sample(&a, &tt[0], &out[0], &ss[0]) : WBCRYPTO_fpe_encrypt_phone(&a, &tt[0], &out[0]);
        else if (idc) r = has ? WBCRYPTO_fpe_encrypt_idcard_with_sample(&a, &tt[0], &out[0], &ss[0]) : WBCRYPTO_fpe_encrypt_idcard(&a, &tt[0], &out[0]);
        else r = has ? WBCRYPTO_fpe_encrypt_cn_utf8_with_sample(&a, &tt[0], &out[0], &ss[0]) : WBCRYPTO_fpe_encrypt_cn_utf8(&a, &tt[0], &out[0]);
        WBCRYPTO_sm4_context_free((WBCRYPTO_sm4_context *)a.cipher_ctx);
    });
    out.resize(t.size()); return r == 1;
}
void close(Session &s) { if (s.open) { lib([&] { s.ver == 5 ? udf5_fpe_deinit(&s.id) : udf8_fpe_deinit(&s.id); }); ev("deinit"); } for (auto &c : s.cst) c.reset(); s.open = false; }
Bytes by(const std::string &x) { return Bytes(x.begin(), x.end()); }
void do_op(Session &s, const Op &o, int idx) {
    sim_set_op(idx); S->ctr[C_OPS]++;
    if (o.name == "close") { close(s); return; }
    if (o.name == "open") {
        close(s);
        s.ver = o.get("ver") == 5 ? 5 : 8; s.argc = (int)o.get("argc", 2); s.dead = false; int mode = (int)(o.get("mode") % 9); int bt = (int)o.get("badtype");
        Item_result ty[5]; char *av[5] = {}; unsigned long ln[5] = {}; char mn[5]; char *at[5] = {}; unsigned long al[5] = {};
        for (int i = 0; i < 5; i++) { ty[i] = bt && bt - 1 == i ? INT_RESULT : STRING_RESULT; mn[i] = o.get("maybe") >> i & 1; }
        s.mode = o.get("cmode") ? mode : -1; s.maxlen[0] = (unsigned long)o.get("max", 64); s.maxlen[1] = s.mode >= 0 ? strlen(MODE[mode]) : 10; s.maxlen[2] = s.maxlen[0] + 4;
        s.hasc = o.get("csample") && s.argc == 3 && mode < 2;
        if (s.mode >= 0) { s.cst[1].reset(new Buf(by(MODE[mode]))); av[1] = (char *)s.cst[1]->p; }
        if (s.hasc) { s.csample = samp(std::string(mode == 0 ? 11 : 18, '7'), mode, (uint64_t)o.get("seed"), 0); s.cst[2].reset(new Buf(by(s.csample))); av[2] = (char *)s.cst[2]->p; s.maxlen[2] = s.csample.size(); }
        s.hasp = o.get("cplain") && s.mode >= 0;                             // fpe('13800138000', 'phone'): the text itself is constant
        if (s.hasp) { size_t n = mode == 0 ? 11 : mode == 1 ? 18 : 3 * (2 + (size_t)o.get("seed") % 20); s.cplain = text(mode, n, (uint64_t)o.get("seed") + 3, 0); s.cst[0].reset(new Buf(by(s.cplain), (int)(o.get("seed") & 7))); av[0] = (char *)s.cst[0]->p; s.maxlen[0] = s.cplain.size(); }
        for (int i = 0; i < 3; i++) ln[i] = s.maxlen[i];
        UDF_ARGS a = {(unsigned)s.argc, ty, av, ln, mn, at, al, nullptr}; Buf msg(rbytes(1, 512)); Bytes g = rbytes((uint64_t)o.get("seed"), sizeof s.id);
        memset(&s.id, 0, sizeof s.id); s.id.max_length = 255; int af = g_alloc_fail; bool r = true; memcpy(&s.id.ptr, g.data(), sizeof(char *)); s.id.ptr = nullptr;
        lib([&] { r = s.ver == 5 ? udf5_fpe_init(&s.id, &a, (char *)msg.p) : udf8_fpe_init(&s.id, &a, (char *)msg.p); }); msg.check("fpe_init message");
        bool ok = (s.argc == 2 || s.argc == 3) && !(bt && bt <= s.argc);
        for (int i = 0; i < 3; i++) if (s.cst[i]) s.cst[i]->check("constant fpe argument");
        ev("init%d argc %d bad %d = %d", s.ver, s.argc, bt, r);
        if (!ok && !r) violate("bad-call-accepted", "fpe_init accepted %d arguments%s", s.argc, bt ? " with a number among them" : "");
        if (ok && r && g_alloc_fail == af) violate("init-refused", "fpe_init refused a proper call");
        if (r) { if (memchr(msg.p, 0, 512) == nullptr) violate("no-message", "fpe_init failed without a message"); for (auto &c : s.cst) c.reset(); probe(1); }
        s.open = !r; return;
    }
    if (o.name != "row" || !s.open || s.dead) return;
    int mode = s.mode >= 0 ? s.mode : (int)(o.get("mode") % 9), bad = (int)o.get("bad"); int nul = (int)o.get("null"); bool any = o.get("any");
    size_t n = (size_t)o.get("len"); if (n > s.maxlen[0]) n = (size_t)s.maxlen[0];
    std::string t = text(mode, n, (uint64_t)o.get("seed"), bad), sm, md = MODE[mode];
    if (t.size() > s.maxlen[0]) t.resize(s.maxlen[0]);
    if (s.hasp) { t = s.cplain; any = false; bad = 0; nul &= ~1; }
    if (any) { Bytes z = rbytes((uint64_t)o.get("seed") + 9, t.size()); t.assign(z.begin(), z.end()); }
    bool has = s.argc == 3; if (has) { sm = s.hasc ? s.csample : samp(t, mode, (uint64_t)o.get("seed") + 1, (int)o.get("skind")); if (sm.size() > s.maxlen[2]) sm.resize(s.maxlen[2]); }
    if (s.mode >= 0) nul &= ~2; if (s.hasc || !has) nul &= ~4;
    std::unique_ptr<Buf> b[3]; char *av[3]; unsigned long ln[3]; const std::string *sv[3] = {&t, &md, &sm}; Item_result ty[3] = {STRING_RESULT, STRING_RESULT, STRING_RESULT}; char mn[3] = {1, 1, 1}; char *at[3] = {}; unsigned long al[3] = {};
    for (int i = 0; i < s.argc; i++) {
        if (nul >> i & 1) { av[i] = nullptr; ln[i] = 0; continue; }
        ln[i] = sv[i]->size(); if (s.cst[i]) { av[i] = (char *)s.cst[i]->p; continue; }
        b[i].reset(new Buf(by(*sv[i]), (int)o.get("al"))); av[i] = (char *)b[i]->p;
    }
    UDF_ARGS a = {(unsigned)s.argc, ty, av, ln, mn, at, al, nullptr}; Buf res(rbytes(2, 255)), isn(Bytes(1, 0)), err(Bytes(1, 0)); unsigned long len = 255; char *r = nullptr; int af = g_alloc_fail;
    lib([&] { r = s.ver == 5 ? udf5_fpe(&s.id, &a, (char *)res.p, &len, (char *)isn.p, (char *)err.p) : udf8_fpe(&s.id, &a, (char *)res.p, &len, (char *)isn.p, (char *)err.p); });
    res.check("fpe result"); isn.check("fpe is_null"); err.check("fpe error flag");
    for (int i = 0; i < s.argc; i++) if (b[i]) { b[i]->check("fpe argument"); if (b[i]->bytes() != by(*sv[i])) violate("input-changed", "fpe changed argument %d", i); }
    bool val = r && !*isn.p && !*err.p; if (*err.p) s.dead = true;
    ev("fpe%d mode %s %zu bytes null %d -> %s", s.ver, md.c_str(), t.size(), nul, val ? "value" : *err.p ? "error" : "null");
    sig(mix64((uint64_t)(s.ver * 16 + mode), mix64((uint64_t)(nul * 64 + bad * 8 + has), mix64(std::min<size_t>(t.size(), 300), val))));
    char where[160]; snprintf(where, sizeof where, "mysql%d: fpe(%zu bytes, '%s'%s)", s.ver, t.size(), md.c_str(), has ? ", sample" : "");
    if (nul) { if (val) violate("null-accepted", "%s: NULL argument gives a value", where); probe(2); return; }
    std::string w; bool ok = want(s.ver, md, t, has, sm, w);
    if (any && ok) { if (val && len != t.size()) violate("wrong-length", "%s gives %lu bytes", where, len); return; }
    if (!ok && val) violate("refusal-missing", "%s: text that cannot be encrypted gives a value", where);
    if (ok && !val && g_alloc_fail == af) violate("row-failed", "%s fails", where);
    if (ok && val) {
        if (len != t.size()) violate("wrong-length", "%s gives %lu bytes", where, len);
        std::string got(r, r + len); probe(0); if (len > 255) probe(3);
        if (got != w) violate("wrong-result", "%s gives %s, expected %s", where, hex(by(got)).c_str(), hex(by(w)).c_str());
        evhash("out", got.data(), got.size());
    }
}
void exec(const Plan &p, int start) {
    if (!udf8_fpe || !udf5_fpe) { fprintf(stderr, "udf sources not built\n"); exit(78); }
    static Session se[4]; int64_t live = sim_live(0, nullptr), id = sim_alloc_id();
    if (p.e("conc")) {
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t) mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]); fs.push_back([&, t, mine] { for (int i : mine) do_op(se[t], p.ops[(size_t)i], i); });
        }
        run_concurrent(fs, ops);
    } else for (size_t i = (size_t)start; i < p.ops.size(); i++) do_op(se[p.ops[i].get("slot") & 3], p.ops[i], (int)i);
    for (auto &s : se) close(s);
    std::string h; int64_t n = sim_live(0, nullptr);
    if (n > live) { sim_live(id, &h); violate("leak", "after every statement was closed fpe() still holds %lld block(s), e.g. %s", (long long)(n - live), h.c_str()); }
}
void gen(Rng &r, Plan &p) {
    int slots = (int)r.range(1, 3), n = (int)r.range(4, 24);
    for (int s = 0; s < slots; s++) {
        int stm = (int)r.range(1, 2);
        for (int k = 0; k < stm; k++) {
            int mode = r.chance(0.9) ? (int)r.range(0, 3) : (int)r.range(4, 8); int64_t max = r.chance(0.6) ? r.range(11, 90) : r.range(11, 700);
            Op &o = p.add("open"); o.set("slot", s).set("ver", r.chance(0.5) ? 5 : 8).set("argc", r.chance(0.05) ? r.range(0, 4) : r.range(2, 3)).set("mode", mode).set("cmode", r.chance(0.7)).set("csample", r.chance(0.4)).set("cplain", r.chance(0.2)).set("max", max).set("maybe", r.range(0, 7)).set("seed", (int64_t)(r.next() >> 16));
            if (r.chance(0.05)) o.set("badtype", r.range(1, 4));
            int rows = n / slots / stm + 1;
            for (int i = 0; i < rows; i++) {
                int m = r.chance(0.9) ? (int)r.range(0, 3) : (int)r.range(4, 8); int em = p.ops.back().name == "open" || r.chance(0.7) ? mode : m;
                int64_t len = em == 0 ? 11 : em == 1 ? 18 : r.chance(0.5) ? r.range(2, 12) * 3 : r.range(2, max / 3) * 3; if (r.chance(0.1)) len = r.range(0, max);
                Op &q = p.add("row"); q.set("slot", s).set("mode", em).set("len", len).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 7));
                if (r.chance(0.08)) q.set("null", r.range(1, 7)); if (r.chance(0.08)) q.set("bad", r.range(1, 3)); if (r.chance(0.15)) q.set("skind", r.range(1, 3)); if (r.chance(0.04)) q.set("any", 1);
            }
            if (r.chance(0.7)) p.add("close").set("slot", s);
        }
    }
    p.env["conc"] = slots > 1 && r.chance(0.4);
}
RegMod r21(Module{"P21", gen, exec, "as", 3});
}
