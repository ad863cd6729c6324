// P03 (encryption: success means complete), P04 (decryption: only authentic plaintext), P05 (nothing else changes, retry works)
#include "fileop.h"
#include <openssl/evp.h>
namespace {
struct Snap { int n; struct { char path[1100]; uint64_t h; uint32_t len; } f[48]; };
Snap *snap() { return persist<Snap>(); }
void take_snap() { Snap *s = snap(); s->n = 0; for (auto &p : dk_list()) if (s->n < 48) { Bytes b = dk_read(p); auto &e = s->f[s->n++]; snprintf(e.path, sizeof e.path, "%s", p.c_str()); e.h = fnv(b.data(), b.size()); e.len = (uint32_t)b.size(); } }
void cmp_snap(const std::string &out, bool in_is_out, const char *what) {     // everything but out and out.tmp is as before
    std::set<std::string> seen;
    Snap *s = snap();
    for (int i = 0; i < s->n; i++) {
        std::string p = s->f[i].path; seen.insert(p);
        if (!in_is_out && (p == out || p == out + ".tmp")) continue;
        if (!dk_exists(p)) violate("file-lost", "%s removed the file %s", what, p.c_str());
        Bytes b = dk_read(p);
        if (b.size() != s->f[i].len || fnv(b.data(), b.size()) != s->f[i].h) violate("file-changed", "%s changed the file %s (%u bytes before, %zu after)", what, p.c_str(), s->f[i].len, b.size());
    }
    for (auto &p : dk_list()) if (!seen.count(p) && p != out && p != out + ".tmp") violate("stray-file", "%s created the file %s", what, p.c_str());
}
struct Par { Key *k; Bytes iv, aad, pt; bool hasaad; std::string in, out; bool dec; Bytes img, prev; bool hadprev; int tamper; bool missing; };
std::map<std::pair<int, bool>, FileCtx> g_keep;

Par params(const Op &o) {
    Par q; q.k = &get_key((int)o.get("kind"), (int)o.get("key"));
    q.iv = rbytes((uint64_t)o.get("ivseed"), (size_t)std::max<int64_t>(1, o.get("ivlen", 12)));
    q.hasaad = o.get("aad") != 0; q.aad = rbytes((uint64_t)o.get("ivseed") + 1, (size_t)o.get("aadlen"));
    q.pt = rbytes((uint64_t)o.get("seed"), (size_t)o.get("len"), (int)o.get("shape"));
    q.dec = o.name == "dec";
    int id = (int)o.get("id") & 7;
    std::string pre = o.get("dot") ? "./d" + std::to_string(id) + "/" : path_style((int)o.get("name"), id);
    q.in = o.get("dot") ? pre + "in" : pre + "in" + std::to_string(id); q.out = o.get("dot") ? pre + "out" : pre + "out" + std::to_string(id);
    if (o.get("name") < 0) q.in += ".dat", q.out += ".bin";
    if (o.get("name") == 1) q.in += ".tmp", q.out += ".tmp";
    if (o.get("same") == 1) q.out = q.in;
    if (o.get("same") == 2) q.in = q.out + ".tmp";
    q.tamper = (int)o.get("tamper"); q.missing = o.get("missing");
    return q;
}
std::string nm(std::string s) { while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
Bytes make_input(Par &q, const Op &o, bool &authentic, Bytes &want) {
    if (!q.dec) { authentic = true; return q.pt; }
    Key *wk = q.k; Bytes iv = q.iv, aad = q.aad; bool ha = q.hasaad; int64_t x = o.get("tarm");
    if (q.tamper == 7) wk = &get_key((int)o.get("kind"), (int)o.get("key2"));
    if (q.tamper == 8) iv[(size_t)x % iv.size()] ^= (u8)(1 << (x >> 8 & 7));
    if (q.tamper == 9) { if (ha && !aad.empty()) aad[(size_t)x % aad.size()] ^= (u8)(1 << (x >> 8 & 7)); else { ha = true; aad = rbytes((uint64_t)x, 1 + (size_t)x % 20); } }
    Bytes orig = file_image(*wk, iv, ha, aad, q.pt), f = orig;
    auto flip = [&](size_t a, size_t b) { if (b > a && b <= f.size()) f[a + (size_t)x % (b - a)] ^= (u8)(1 << (x >> 20 & 7)); };
    auto setlen = [&] { if (f.size() >= 24) for (int i = 0; i < 4; i++) f[16 + i] = (u8)((f.size() - 24) >> (8 * i)); };
    size_t ct = f.size() - 24;
    switch (q.tamper) {
        case 1: flip(0, 16); break;
        case 2: flip(16, 20); break;
        case 3: flip(24, f.size()); break;
        case 4: f.resize(f.size() - std::min<size_t>(f.size(), 1 + (size_t)x % (ct + 24))); break;
        case 5: { Bytes e = rbytes((uint64_t)x, 1 + (size_t)x % 40); f.insert(f.end(), e.begin(), e.end()); break; }
        case 6: { Bytes g = file_image(*q.k, q.iv, q.hasaad, q.aad, rbytes((uint64_t)x, q.pt.size())); std::copy(g.begin(), g.begin() + 16, f.begin()); break; }   // tag of another message
        case 10: if (ct) { f.resize(f.size() - (1 + (size_t)x % ct)); setlen(); } break;
        case 11: { Bytes e = rbytes((uint64_t)x, 1 + (size_t)x % 40, (int)(x >> 9 & 1)); f.insert(f.end(), e.begin(), e.end()); setlen(); break; }
        case 12: if (ct >= 32) { size_t nb = ct / 16, i = (size_t)x % nb, j = (size_t)(x >> 10) % nb; for (int b = 0; b < 16; b++) std::swap(f[24 + i * 16 + b], f[24 + j * 16 + b]); } break;
        case 13: f.resize((size_t)x % 25); if (f.size() > orig.size()) f = orig; break;
        case 14: for (int i = 0; i < 16; i++) f[i] = (u8)(x & 1 ? 0 : 0xff); break;
        case 15: if (ct) { size_t cut = (size_t)x % ct; for (size_t i = cut; i < ct; i++) f[24 + i] = 0; } break;         // tail lost (zeros)
        case 16: if (ct >= 2) f[24 + (size_t)x % (ct - 1) + 1] ^= 0x80, f[24] ^= 1; break;
    }
    if (q.k->kind == KMASK) { authentic = f == orig && wk == q.k && iv == q.iv && ((ha ? aad : Bytes()) == (q.hasaad ? q.aad : Bytes())); want = q.pt; }
    else authentic = file_authentic(*q.k, q.iv, q.hasaad, q.aad, f, want);
    if (q.tamper) { S->ctr[F_TAMPER]++; }
    return f;
}
int run_once(Par &q, const Op &o, bool armed, bool keep) {
    FileCtx c; auto &slot = g_keep[{q.k->kind * 8 + (int)o.get("key"), q.dec}];
    if (keep && slot.h) c = slot;
    Buf iv(q.iv), aad(q.aad);
    Buf in(Bytes(q.in.c_str(), q.in.c_str() + q.in.size() + 1)), out(Bytes(q.out.c_str(), q.out.c_str() + q.out.size() + 1));
    int r = 0; bool init = true;
    auto body = [&] {
        if (!c.h) init = file_init(c, *q.k, q.dec);
        if (!init) return;
        if (file_setiv(c, iv.p, iv.n) != 1) { r = -100; return; }
        if (q.hasaad && file_aad(c, aad.p, aad.n) != 1) { r = -100; return; }
        r = file_run(c, (char *)in.p, (char *)out.p);
        if (!keep) file_free(c);
    };
    if (armed) lib(body); else lib_quiet(body);
    in.check("path"); out.check("path");
    if (keep) slot = c;
    if (!init || r == -100) violate("setup", "file context set-up failed");
    return r;
}
void after(const char *prop, const Op &o, Par &q, bool armed, int r, bool authentic, const Bytes &infile, const Bytes &want) {
    bool p3 = !strcmp(prop, "P03"), p4 = !strcmp(prop, "P04"), p5 = !strcmp(prop, "P05");
    std::string out = nm(q.out), in = nm(q.in); bool alias = o.get("same") != 0;
    bool hard = g_hard_io > 0;
    char what[160]; snprintf(what, sizeof what, "%s file %s of %zu bytes%s", kind_name[q.k->kind], q.dec ? "decryption" : "encryption", infile.size(), armed ? "" : " (repeated after the fault)");
    if (r != 1 && r != 0 && r != -1) violate("bad-return", "%s returned %d", what, r);
    bool ok = r == 1;
    if (!q.dec) {
        if (p3) {
            if (ok && alias) violate("alias-success", "%s onto its own input reported success", what);
            if (ok) {
                Bytes img = file_image(*q.k, q.iv, q.hasaad, q.aad, q.pt);
                if (q.missing) violate("success-without-input", "%s reported success although the input does not exist", what);
                if (!dk_exists(out)) violate("success-without-output", "%s reported success but there is no output file", what);
                eq("wrong-file", dk_read(out), img, "%s reported success with a wrong output file", what);
            } else if (!hard && !alias && !q.missing && !g_unlink_fail) violate("spurious-failure", "%s failed without an I/O error", what);
        }
    } else {
        if (p4) {
            if (ok) {
                if (q.missing || !authentic) violate("unauthentic-accepted", "%s accepted a file that is not authentic (tamper %d)", what, q.tamper);
                if (!alias) {
                    if (!dk_exists(out)) violate("success-without-output", "%s reported success but there is no output file", what);
                    eq("wrong-plaintext", dk_read(out), want, "%s reported success with a wrong output file", what);
                }
            } else {
                if (!hard && authentic && !alias && !q.missing && !g_unlink_fail) violate("spurious-failure", "%s refused an authentic file without an I/O error", what);
                if (!g_unlink_fail && !alias && dk_exists(out)) {
                    Bytes now = dk_read(out);
                    if (!(q.hadprev && now == q.prev)) violate("plaintext-left", "%s failed but left %zu bytes at the output path", what, now.size());
                }
            }
        }
    }
    if (p5) {
        cmp_snap(out, alias, what);
        if (!alias && !q.missing) { Bytes b = dk_read(in); if (b != infile) violate("input-changed", "%s changed its input file", what); }
        if (sim_open_files()) violate("file-left-open", "%s left %d files open", what, sim_open_files());
        bool hadtmp = false; for (int i = 0; i < snap()->n; i++) if (snap()->f[i].path == out + ".tmp") hadtmp = true;
        if (!hadtmp && !g_unlink_fail && dk_exists(out + ".tmp")) violate("tmp-left", "%s left its temporary file behind", what);
    }
}
void check_retry(const char *prop, const Op &o, Par &q, bool authentic, const Bytes &infile, const Bytes &want) {
    if (strcmp(prop, "P05") || o.get("same") || q.missing || !authentic) return;
    clear_io_fault_flag();
    int r = run_once(q, o, false, o.get("keep"));
    ev("retry = %d", r);
    if (r != 1) violate("retry-failed", "%s file %s of %zu bytes fails when repeated after the fault", kind_name[q.k->kind], q.dec ? "decryption" : "encryption", infile.size());
    Bytes exp = q.dec ? want : file_image(*q.k, q.iv, q.hasaad, q.aad, q.pt);
    eq("retry-wrong", dk_read(nm(q.out)), exp, "%s file %s repeated after the fault gives a wrong file", kind_name[q.k->kind], q.dec ? "decryption" : "encryption");
    if (!q.dec && dk_exists(nm(q.out) + ".tmp")) violate("tmp-left", "the repeated operation left its temporary file behind");
    after(prop, o, q, false, r, authentic, infile, want);
}
// A file of more than 2^31 bytes (AES), compared piecewise with OpenSSL.
void huge(const char *prop, const Op &o) {
    bool dec = !strcmp(prop, "P04"); Key &k = get_key(KAES, (int)o.get("key")); int64_t n = o.get("len"); uint64_t seed = (uint64_t)o.get("seed"); Bytes iv = rbytes(seed, 12), w(1 << 20), t(1 << 20); int l = 0;
    u8 *pt = dk_data(dec ? "plain" : "in", n); Rng r(seed);            // sparse: one byte in every 64 KiB, the rest zero
    for (int64_t i = 0; i < n; i += 65521) pt[i] = (u8)r.next();
    pt[n - 1] = 0x77;
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(c, EVP_aes_128_gcm(), nullptr, k.k16.data(), iv.data());
    u8 head[24] = {0}; for (int i = 0; i < 4; i++) head[16 + i] = (u8)((uint64_t)n >> (8 * i));
    auto seal = [&](u8 *img, bool check) {                              // writes or checks the expected file
        for (int64_t i = 0; i < n; i += 1 << 20) {
            int q = (int)std::min<int64_t>(1 << 20, n - i); EVP_EncryptUpdate(c, check ? w.data() : img + 24 + i, &l, pt + i, q);
            if (check && memcmp(w.data(), img + 24 + i, (size_t)q)) violate("wrong-file", "aes file encryption of %lld bytes reported success with a wrong output file (in the megabyte at %lld)", (long long)n, (long long)i);
        }
        EVP_EncryptFinal_ex(c, w.data(), &l); EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_GCM_GET_TAG, 16, head);
        if (!check) memcpy(img, head, 24); else if (memcmp(img, head, 24)) violate("wrong-file", "aes file encryption of %lld bytes reported success with a wrong tag or length", (long long)n);
    };
    if (dec) seal(dk_data("in", n + 24), false);
    FileCtx fc; Buf v(iv); char in[] = "in", out[] = "out"; int ret = 0;
    lib([&] { if (file_init(fc, k, dec) && file_setiv(fc, v.p, v.n) == 1) ret = file_run(fc, in, out); file_free(fc); });
    if (ret != 1) violate("spurious-failure", "aes file %s of %lld bytes failed without an I/O error", dec ? "decryption" : "encryption", (long long)n);
    if (dk_size("out") != n + (dec ? 0 : 24)) violate(dec ? "wrong-plaintext" : "wrong-file", "aes file %s of %lld bytes reported success with an output of %lld bytes", dec ? "decryption" : "encryption", (long long)n, (long long)dk_size("out"));
    if (!dec) seal(dk_data("out", -1), true);
    else { u8 *g = dk_data("out", -1); for (int64_t i = 0; i < n; i += 1 << 20) if (memcmp(g + i, pt + i, (size_t)std::min<int64_t>(1 << 20, n - i))) violate("wrong-plaintext", "aes file decryption of %lld bytes reported success with a wrong output file (in the megabyte at %lld)", (long long)n, (long long)i); }
    EVP_CIPHER_CTX_free(c); probe(4); ev("huge %lld", (long long)n);
}
void exec(const char *prop, const Plan &p, int start) {
    if (!p.ops.empty() && p.ops[0].name == "huge") { sim_set_op(0); S->ctr[C_OPS]++; huge(prop, p.ops[0]); return; }
    for (auto &o : p.ops) { get_key((int)o.get("kind"), (int)o.get("key")); if (o.name == "dec") get_key((int)o.get("kind"), (int)o.get("key2")); }
    if (start > 0) {                                 // the process crashed in ops[start-1]
        const Op &o = p.ops[(size_t)start - 1];
        sim_set_op(start - 1);
        Par q = params(o); bool authentic = false; Bytes want, in = make_input(q, o, authentic, want);
        q.hadprev = false;
        if (!strcmp(prop, "P05")) {
            cmp_snap(nm(q.out), o.get("same") != 0, "a file operation that crashed");
            check_retry(prop, o, q, authentic, in, want);
        }
        probe(0);
    }
    for (size_t i = (size_t)start; i < p.ops.size(); i++) {
        const Op &o = p.ops[i];
        sim_set_op((int)i); S->ctr[C_OPS]++;
        Par q = params(o); bool authentic = false; Bytes want, in = make_input(q, o, authentic, want);
        for (int b = 0; b < 2; b++) dk_write(b ? "bystander" : "in.txt", rbytes(77 + (uint64_t)b, 40));
        if (!strcmp(prop, "P05") && o.get("name") < 0) {                       // neighbours of the output path
            std::string ob = nm(q.out); ob.resize(ob.size() - 4);
            for (const char *x : {"", ".tmp", ".bi", ".bin~", ".bin.bak"}) dk_write(ob + x, rbytes(80, 33));
        }
        std::string inn = nm(q.in), out = nm(q.out);
        if (q.missing) dk_remove(inn); else dk_write(inn, in);
        if (!o.get("same")) {
            switch (o.get("prev")) {
                case 1: dk_remove(out); break;
                case 2: dk_write(out, rbytes((uint64_t)o.get("seed") + 9, in.size() + 100)); break;
                case 3: dk_write(out, rbytes((uint64_t)o.get("seed") + 9, 7)); break;
                default: break;                       // whatever earlier operations left
            }
            if (o.get("prev") == 2) dk_write(out + ".tmp", rbytes(5, in.size() + 300));
        } else if (o.get("same") == 2) dk_remove(out);
        q.hadprev = dk_exists(out); if (q.hadprev) q.prev = dk_read(out);
        take_snap();
        clear_io_fault_flag();
        int r = run_once(q, o, true, o.get("keep"));
        ev("%s %s = %d", o.name.c_str(), kind_name[q.k->kind], r);
        probe(r == 1 ? 1 : 2);
        if (g_hard_io) probe(3);
        if (dk_exists(out)) { Bytes b = dk_read(out); evhash("out", b.data(), b.size()); }
        sig(mix64(q.k->kind * 64 + q.dec * 32 + q.tamper, mix64(r == 1, mix64(g_hard_io > 0, in.size() / 128 > 9 ? 9 : in.size() / 128))));
        after(prop, o, q, true, r, authentic, in, want);
        if (r != 1) check_retry(prop, o, q, authentic, in, want);
    }
}
void gen(Rng &r, Plan &p, int which) {
    int64_t hi = p.e("idx") - 20000000;
    if (which != 5 && hi == 0) { p.add("huge").set("key", r.range(0, POOLIDX - 1)).set("len", (1ll << 31) + r.range(0, 40)).set("seed", (int64_t)(r.next() >> 16)); p.env["bigdisk"] = p.env["nofan"] = 1; p.env["bufsz"] = 1 << 20; p.env["cpu"] = 300; return; }
    if (which != 5 && hi > 0 && hi % 120 == 7) { p.env["bigdisk"] = p.env["nofan"] = 1; p.env["bufsz"] = 1 << 16; }
    int n = (int)r.range(1, which == 5 ? 4 : 3);
    int kind = (int)r.range(0, NKIND - 1);
    for (int i = 0; i < n; i++) {
        bool dec = which == 3 ? false : which == 4 ? true : r.chance(0.5);
        Op &o = p.add(dec ? "dec" : "enc");
        if (r.chance(0.3)) kind = (int)r.range(0, NKIND - 1);
        o.set("kind", kind).set("key", r.range(0, POOLIDX - 1)).set("id", r.range(0, 2));
        o.set("ivseed", (int64_t)(r.next() >> 16)).set("ivlen", r.chance(0.5) ? 12 : r.chance(0.3) ? 16 : r.range(1, 40));
        if (r.chance(0.6)) o.set("aad", 1).set("aadlen", r.chance(0.15) ? 0 : r.range(1, 50));
        int len = lenpick(r, 9000); if (r.chance(0.15)) len = (int)(r.range(0, 4) * 4096 + r.range(-30, 30)); if (len < 0) len = 0;
        if (r.chance(0.02)) len = (int)r.range(60000, 140000);
        if (p.e("bigdisk")) { len = (int)(r.pick(std::vector<int64_t>{1 << 24, 1 << 23, 0x1fffff0}) + r.range(-20, 40)); kind = (int)r.range(0, 5); if (kind == KMASK || kind == KWBSM4) len /= 4; o.set("kind", kind); i = n; }
        o.set("len", len).set("seed", (int64_t)(r.next() >> 16));
        if (r.chance(0.1)) o.set("shape", r.range(1, 2));
        if (r.chance(0.35)) o.set("keep", 1);
        o.set("prev", r.range(0, 3));
        if (r.chance(0.15)) o.set("dot", 1); else if (r.chance(0.2)) o.set("name", -1); else if (r.chance(0.25)) o.set("name", r.chance(0.3) ? r.range(1, 9) : r.range(10, 990));
        if (r.chance(which == 5 ? 0.12 : 0.03)) o.set("same", dec ? 1 : r.range(1, 2));
        else if (r.chance(0.04)) o.set("missing", 1);
        if (dec && r.chance(which == 4 ? 0.6 : 0.25)) { o.set("tamper", r.range(1, 16)).set("tarm", (int64_t)(r.next() >> 24)).set("key2", (o.get("key") + r.range(1, POOLIDX - 1)) % POOLIDX); }
    }
}
void g3(Rng &r, Plan &p) { gen(r, p, 3); } void g4(Rng &r, Plan &p) { gen(r, p, 4); } void g5(Rng &r, Plan &p) { gen(r, p, 5); }
void e3(const Plan &p, int s) { exec("P03", p, s); } void e4(const Plan &p, int s) { exec("P04", p, s); } void e5(const Plan &p, int s) { exec("P05", p, s); }
RegMod r3(Module{"P03", g3, e3, "fcp", 10});
RegMod r4(Module{"P04", g4, e4, "fcp", 6});
RegMod r5(Module{"P05", g5, e5, "fcp", 10});
}
