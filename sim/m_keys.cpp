// P06 (white-box SM4 key files), P07 (key store files), P08 (white-box SM4 key bytes)
#include "lib.h"
namespace {
// ---------------------------------------------------------------- shared: white-box SM4 contexts
struct Rx { WBCRYPTO_wbsm4_context *c = nullptr; int key = -1, dir = 1, rounds = 0, encmode = 0; };
Rx g_rx[4];
bool same_cipher(WBCRYPTO_wbsm4_context *c, int key, int dir, int nblk, uint64_t seed, std::string &why) {
    Key &k = get_key(KWBSM4, key);
    Bytes in = rbytes(seed, 16 * (size_t)nblk), out(in.size());
    int bad = 0;
    lib_quiet([&] { for (int i = 0; i < nblk; i++) if ((dir ? WBCRYPTO_wbsm4_encrypt(&in[16 * i], &out[16 * i], c) : WBCRYPTO_wbsm4_decrypt(&in[16 * i], &out[16 * i], c)) != 1) bad++; });
    for (int i = 0; i < nblk; i++) {
        u8 w[16]; if (dir) k.blk->enc(&in[16 * i], w); else k.blk->dec(&in[16 * i], w);
        if (bad || memcmp(w, &out[16 * i], 16)) { why = "block " + hex(Bytes(in.begin() + 16 * i, in.begin() + 16 * i + 16)) + " gives " + hex(Bytes(out.begin() + 16 * i, out.begin() + 16 * i + 16)) + " expected " + hex(Bytes(w, w + 16)); return false; }
    }
    return true;
}
void fresh(Rx &r, int dir, int dummy) {
    r.dir = dir; r.key = -1;
    r.c = callq([&] { return WBCRYPTO_wbsm4_context_init(dir, dummy); });
    if (!r.c) violate("setup", "wbsm4_context_init fails");
    r.rounds = r.c->rounds; r.encmode = r.c->encmode;
}
void unchanged(Rx &r, const char *what) {
    if (r.c->rounds != r.rounds || r.c->encmode != r.encmode) violate("context-changed", "%s was refused but changed the receiving context (rounds %d -> %d, mode %d -> %d)", what, r.rounds, r.c->rounds, r.encmode, r.c->encmode);
    std::string why;
    if (r.key >= 0 && !same_cipher(r.c, r.key, r.dir, 400, 99, why)) violate("context-changed", "%s was refused but the receiving context no longer computes its old key: %s", what, why.c_str());
}
void adopted(Rx &r, int key, int dir, uint64_t seed, const char *cls, const char *what) {
    std::string why;
    if (r.c->encmode != dir) violate(cls, "%s: direction %d instead of %d", what, r.c->encmode, dir);
    if (!same_cipher(r.c, key, dir, 1500, seed, why)) violate(cls, "%s succeeded but the context is not equivalent: %s", what, why.c_str());
    r.key = key; r.dir = dir; r.rounds = r.c->rounds; r.encmode = r.c->encmode;
}
struct Cand { int key, dir; };
struct FileState { int n; Cand c[4]; int good; int len; };                // keys whose complete file may be at this path; good: certainly complete
struct Persist { FileState f[4]; int wiped[POOLIDX]; };
Persist *PS() { return persist<Persist>(); }
void wipe(int idx) { PS()->wiped[idx] = 1; pool_wipe(KWBSM4, idx); }
bool avail(int idx) { return !PS()->wiped[idx]; }
void start_process() {
    for (int i = 0; i < POOLIDX; i++) if (pool_get(KWBSM4, i).state) get_key(KWBSM4, i);
    for (int i = 0; i < POOLIDX; i++) if (PS()->wiped[i]) pool_wipe(KWBSM4, i);
}
void release(Rx &r) { if (r.c) { lib_quiet([&] { WBCRYPTO_wbsm4_context_free(r.c); }); r.c = nullptr; r.key = -1; } }
// the context an export starts from: a pool context, or one generated here with nd dummy rounds
struct Src {
    WBCRYPTO_wbsm4_context *c = nullptr; bool mine = false;
    Src(int key, int dir, int nd) {
        if (nd < 0) { Key &k = get_key(KWBSM4, key); c = (WBCRYPTO_wbsm4_context *)(dir ? k.ctx : k.ctx2); return; }
        Bytes raw = key_bytes(KWBSM4, key, true); mine = true;
        c = callq([&] { return WBCRYPTO_wbsm4_context_init(dir, nd); });
        if (!c || callq([&] { return WBCRYPTO_wbsm4_gen_table(c, raw.data(), raw.size()); }) != 1) violate("setup", "generating a white-box SM4 context with %d dummy rounds fails", nd);
    }
    ~Src() { if (mine) lib_quiet([&] { WBCRYPTO_wbsm4_context_free(c); }); }
};
int64_t ndpick(Rng &r) { return r.chance(0.3) ? r.pick(std::vector<int64_t>{0, 8, 55, 56, 57, 63, 64, 70}) : r.range(0, 66); }
Rx &receiver(const Op &o) {
    Rx &r = g_rx[o.get("rx") & 3];
    if (o.get("fresh") || !r.c) { release(r); fresh(r, (int)o.get("rdir") & 1, o.get("rdummy") == 4 ? 0 : o.get("rdummy") == 5 ? 60 : 1 + (int)(o.get("rdummy") & 3)); }
    return r;
}
std::string kpath(int f) { return path_style((int)P->e("name"), f) + "key" + std::to_string(f); }

// ---------------------------------------------------------------- P06
void exec6(const Plan &p, int start) {
    start_process();
    if (start > 0) {
        const Op &o = p.ops[(size_t)start - 1];
        if (o.name == "exp" || o.name == "restart") probe(0);
    }
    for (size_t i = (size_t)start; i < p.ops.size(); i++) {
        const Op &o = p.ops[i]; sim_set_op((int)i); S->ctr[C_OPS]++;
        int f = (int)o.get("f") & 3; std::string path = kpath(f); FileState &fs = PS()->f[f];
        Buf pb(Bytes(path.c_str(), path.c_str() + path.size() + 1));
        clear_io_fault_flag();
        if (o.name == "exp") {
            int key = (int)o.get("key") % POOLIDX, dir = (int)o.get("dir") & 1;
            if (!avail(key) || o.get("kind") != KWBSM4) continue;
            Src src(key, dir, (int)o.get("nd", -1)); auto *c = src.c;
            if (fs.n < 4) fs.c[fs.n++] = Cand{key, dir}; else fs.c[3] = Cand{key, dir};   // from now on the path may hold the old or the new key
            fs.good = 0;
            int r = call([&] { return WBCRYPTO_wbsm4_key2file(c, (char *)pb.p); });
            pb.check("path");
            ev("exp key %d dir %d = %d", key, dir, r);
            if (r == 1) { fs.n = 1; fs.c[0] = Cand{key, dir}; fs.good = 1; fs.len = (int)dk_read(path).size(); probe(1); }
            else if (!g_hard_io) violate("spurious-failure", "wbsm4_key2file failed without an I/O error");
            else probe(2);
            sig(mix64(key * 4 + dir, r + 16 * (g_hard_io > 0)));
            if (o.get("wipe")) wipe(key);
        } else if (o.name == "damage") {
            if (!fs.good) continue;
            Bytes b = dk_read(path); int64_t x = o.get("arm"); int m = (int)o.get("mode");
            S->ctr[F_TAMPER]++;
            switch (m) {
                case 0: b.resize((size_t)x % b.size()); break;
                case 1: b.resize(b.size() - 1 - (size_t)x % 3000); break;
                case 2: { Bytes e = rbytes((uint64_t)x, 1 + (size_t)x % 5000); b.insert(b.end(), e.begin(), e.end()); break; }
                case 3: b[(size_t)x % 16] ^= (u8)(1 << (x >> 8 & 7)); break;
                case 4: { int32_t rr; memcpy(&rr, &b[16], 4); int32_t d[] = {4, -4, 8, 1, -1, 2, 1000000, -rr, -2 * rr, 0x40000000, 1 << 20}; rr += d[x % 11]; memcpy(&b[16], &rr, 4); break; }
                case 5: b = rbytes((uint64_t)x, b.size()); break;
                case 6: b = rbytes((uint64_t)x, (size_t)x % 30); break;
                case 7: dk_remove(path); break;
                case 8: b.resize(16 + (size_t)x % 9); break;
                default: b.erase(b.begin() + 24, b.begin() + 25 + x % 100);
            }
            if (m != 7) dk_write(path, b);
            fs.n = 0; fs.good = 0;
            ev("damage %d", m);
        } else if (o.name == "imp") {
            Rx &rx = receiver(o);
            int r = call([&] { return WBCRYPTO_wbsm4_file2key(rx.c, (char *)pb.p); });
            ev("imp %d = %d", f, r);
            if (r == 1) {
                if (!fs.n) violate("bad-file-accepted", "wbsm4_file2key accepted a file that is not a complete key file");
                std::string why; int hit = -1;
                for (int j = fs.n - 1; j >= 0 && hit < 0; j--) if (rx.c->encmode == fs.c[j].dir && same_cipher(rx.c, fs.c[j].key, fs.c[j].dir, 4, 5, why)) hit = j;
                if (hit < 0) violate("not-equivalent", "wbsm4_file2key succeeded but the context is not equivalent to the exported key: %s", why.c_str());
                adopted(rx, fs.c[hit].key, fs.c[hit].dir, (uint64_t)o.get("seed"), "not-equivalent", "wbsm4_file2key");
                probe(3);
            } else {
                if (fs.good && !g_hard_io) violate("spurious-failure", "wbsm4_file2key refused a complete key file without an I/O error");
                unchanged(rx, "wbsm4_file2key");
                probe(4);
            }
            sig(mix64(0x100 + fs.good * 8 + fs.n, r + 16 * (g_hard_io > 0) + 32 * (rx.key >= 0)));
        } else if (o.name == "restart") sim_crash_now();
    }
}
void gen6(Rng &r, Plan &p) {
    if (r.chance(0.25)) p.env["name"] = r.chance(0.3) ? r.range(1, 9) : r.range(10, 990);
    p.env["bufsz"] = r.chance(0.4) ? 0 : r.pick(std::vector<int64_t>{500, 1000, 4096, 65536, 200000});
    int n = (int)r.range(2, 7);
    for (int i = 0; i < n; i++) {
        int f = r.chance(0.2); int x = (int)r.range(0, 19);
        if (i == 0 || x < 6) {
            Op &o = p.add("exp"); o.set("kind", KWBSM4).set("key", r.range(0, POOLIDX - 1)).set("dir", r.range(0, 1)).set("f", f).set("wipe", r.chance(0.4));
            if (r.chance(0.08)) { o.set("nd", ndpick(r)); if (p.env["bufsz"] < 4096) p.env["bufsz"] = 0; }
        }
        else if (x < 9) p.add("damage").set("f", f).set("mode", r.range(0, 9)).set("arm", (int64_t)(r.next() >> 24)).set("nofault", 1);
        else if (x < 10) p.add("restart").set("nofault", 1);
        else p.add("imp").set("f", f).set("rx", r.range(0, 1)).set("fresh", r.chance(0.4)).set("rdir", r.range(0, 1)).set("rdummy", r.range(0, 5)).set("seed", (int64_t)(r.next() >> 24));
        if (i == 0 && r.chance(0.3)) p.add("restart").set("nofault", 1);
    }
    int f = 0;
    p.add("imp").set("f", f).set("rx", 1).set("fresh", r.chance(0.6)).set("rdir", r.range(0, 1)).set("rdummy", r.range(0, 5)).set("seed", (int64_t)(r.next() >> 24));
}

// ---------------------------------------------------------------- P08
void exec8(const Plan &p, int start) {
    start_process();
    for (size_t i = (size_t)start; i < p.ops.size(); i++) {
        const Op &o = p.ops[i]; sim_set_op((int)i); S->ctr[C_OPS]++;
        int f = (int)o.get("f") & 3; std::string path = kpath(f); FileState &fs = PS()->f[f];
        clear_io_fault_flag();
        if (o.name == "exp") {
            int key = (int)o.get("key") % POOLIDX, dir = (int)o.get("dir") & 1;
            WBCRYPTO_wbsm4_context *c = nullptr; std::unique_ptr<Src> made;
            Rx &src = g_rx[o.get("rx") & 3];
            if (o.get("relay")) { if (!src.c || src.key < 0) continue; c = src.c; key = src.key; dir = src.dir; }   // pass an imported key on
            else { if (!avail(key) || o.get("kind") != KWBSM4) continue; made.reset(new Src(key, dir, (int)o.get("nd", -1))); c = made->c; }
            // the out-parameter holds nothing, an address that is no longer valid, or an earlier stream still in use
            char *ks = nullptr, *const old = o.get("old") == 2 ? (char *)sim_malloc(64) : o.get("old") == 1 ? (char *)0x10 : nullptr;
            if (o.get("old") == 2) { uint32_t v = 0x7fffffff; memset(old, 0x55, 64); memcpy(old, &v, 4); }
            ks = old;
            int r = call([&] { return WBCRYPTO_wbsm4_key2bytes(c, &ks); });
            if (o.get("old") == 2) { for (int b = 4; b < 64; b++) if (old[b] != 0x55) violate("stream-changed", "wbsm4_key2bytes wrote into an earlier stream its out-parameter pointed to"); sim_free(old); }
            if (r == 1 && ks == old && old) violate("no-stream", "wbsm4_key2bytes succeeded without a new stream");
            if (r != 1 && ks == old) ks = nullptr;
            ev("exp key %d dir %d = %d", key, dir, r);
            if (r == 1) {
                if (!ks) violate("no-stream", "wbsm4_key2bytes succeeded without a stream");
                uint32_t n; memcpy(&n, ks, 4);
                if (n < 4 || n > (9u << 20)) violate("bad-length", "wbsm4_key2bytes wrote a length of %u", n);
                dk_write(path, Bytes((u8 *)ks, (u8 *)ks + n));           // handed to the other side
                evhash("stream", ks, n);
                fs.n = 1; fs.c[0] = Cand{key, dir}; fs.good = 1;
                probe(1);
            } else if (!g_alloc_fail) violate("spurious-failure", "wbsm4_key2bytes failed without an allocation failure");
            sim_free(ks);
            if (o.get("wipe")) { if (o.get("relay")) release(src); else wipe(key); }
        } else if (o.name == "imp") {
            if (!fs.good) continue;
            Rx &rx = receiver(o);
            Bytes b = dk_read(path); int m = (int)o.get("mode"); int64_t x = o.get("arm");
            uint32_t len; int32_t rr; memcpy(&len, &b[0], 4); memcpy(&rr, &b[4], 4);
            bool bad = m != 0;
            if (m == 1) { int32_t d[] = {1, -1, 4, -4, 24576, -24576, 16, 1000}; len += (uint32_t)d[x % 8]; memcpy(&b[0], &len, 4); }
            else if (m == 2) { int32_t d[] = {4, -4, 1, -1, 8, -rr, -2 * rr, 1 << 20, 2, 3}; rr += d[x % 10]; memcpy(&b[4], &rr, 4); }
            else if (m == 3) { len = (uint32_t)(x % 24); memcpy(&b[0], &len, 4); b.resize(std::max<size_t>(len, 12)); }
            else if (m == 4) { len = (uint32_t)(x % (len - 12)) + 12; memcpy(&b[0], &len, 4); b.resize(len); }
            if (bad) S->ctr[F_TAMPER]++;
            Buf sb(b);
            int r = call([&] { return WBCRYPTO_wbsm4_bytes2key(rx.c, (const char *)sb.p); });
            sb.check("key bytes");
            eq("stream-changed", sb.bytes(), b, "wbsm4_bytes2key changed the stream");
            ev("imp %d mode %d = %d", f, m, r);
            if (r == 1) {
                if (bad) violate("inconsistent-accepted", "wbsm4_bytes2key accepted a stream with declared length %u and %d rounds (%zu bytes)", len, rr, b.size());
                memset(sb.p, 0x3C, sb.n);                                   // the caller releases its copy
                adopted(rx, fs.c[0].key, fs.c[0].dir, (uint64_t)o.get("seed"), "not-equivalent", "wbsm4_bytes2key");
                probe(3);
            } else {
                if (!bad && !g_alloc_fail) violate("spurious-failure", "wbsm4_bytes2key refused an exported stream");
                unchanged(rx, "wbsm4_bytes2key");
                probe(4);
            }
            sig(mix64(0x200 + m, r + 2 * (g_alloc_fail > 0) + 4 * (rx.key >= 0) + 8 * o.get("fresh")));
        } else if (o.name == "use") {
            Rx &rx = g_rx[o.get("rx") & 3]; std::string why;
            if (rx.c && rx.key >= 0 && !same_cipher(rx.c, rx.key, rx.dir, 300, (uint64_t)o.get("seed"), why)) violate("not-equivalent", "an imported context changed later: %s", why.c_str());
        } else if (o.name == "drop") { release(g_rx[o.get("rx") & 3]); }
        else if (o.name == "restart") sim_crash_now();
    }
}
void gen8(Rng &r, Plan &p) {
    int n = (int)r.range(2, 8);
    for (int i = 0; i < n; i++) {
        int f = r.chance(0.15), x = (int)r.range(0, 19);
        if (i == 0 || x < 5) { p.add("exp").set("kind", KWBSM4).set("key", r.range(0, POOLIDX - 1)).set("dir", r.range(0, 1)).set("f", f).set("wipe", r.chance(0.6)).set("relay", i && r.chance(0.4)).set("rx", r.range(0, 1)).set("old", r.range(0, 2)); if (r.chance(0.08)) p.ops.back().set("nd", ndpick(r)); if (i == 0 && r.chance(0.4)) p.add("restart").set("nofault", 1); }
        else if (x < 7) p.add("restart").set("nofault", 1);
        else if (x < 9) p.add("use").set("rx", r.range(0, 1)).set("seed", (int64_t)(r.next() >> 24));
        else if (x < 10) p.add("drop").set("rx", r.range(0, 1));
        else { Op &o = p.add("imp"); o.set("f", f).set("rx", r.range(0, 1)).set("fresh", r.chance(0.4)).set("rdir", r.range(0, 1)).set("rdummy", r.range(0, 5)).set("seed", (int64_t)(r.next() >> 24)); if (r.chance(0.3)) o.set("mode", r.range(1, 4)).set("arm", (int64_t)(r.next() >> 24)); }
    }
    p.add("imp").set("f", 0).set("rx", 0).set("fresh", r.chance(0.5)).set("rdir", r.range(0, 1)).set("rdummy", r.range(0, 5)).set("seed", (int64_t)(r.next() >> 24));
    p.add("use").set("rx", 1).set("seed", (int64_t)(r.next() >> 24));
}

// ---------------------------------------------------------------- P07
Bytes stored(const Op &o, Key *&k) {                       // bytes to store: a raw buffer or a flat key context
    k = nullptr; int what = (int)o.get("what");
    if (what == 0) return rbytes((uint64_t)o.get("seed"), (size_t)std::max<int64_t>(1, o.get("len")), (int)o.get("shape"));
    k = &get_key(what == 1 ? KAES : what == 2 ? KSM4 : KWBAES, (int)o.get("key"));
    size_t n = what == 1 ? sizeof(WBCRYPTO_aes_context) : what == 2 ? sizeof(WBCRYPTO_sm4_context) : sizeof(WBCRYPTO_wbaes_context);
    return Bytes((u8 *)k->ctx, (u8 *)k->ctx + n);
}
struct KS { int op; int ok; };                             // per path: index of the last store operation (+1), and whether it succeeded
void exec7(const Plan &p, int start) {
    KS *ks = persist<KS>();
    for (size_t i = (size_t)start; i < p.ops.size(); i++) {
        const Op &o = p.ops[i]; sim_set_op((int)i); S->ctr[C_OPS]++;
        int f = (int)o.get("f") & 3; std::string path = kpath(f);
        Buf pb(Bytes(path.c_str(), path.c_str() + path.size() + 1));
        clear_io_fault_flag();
        if (o.name == "store") {
            Key *k; Bytes b = stored(o, k); Buf src(b, (int)o.get("al"));
            ks[f].op = (int)i + 1; ks[f].ok = 0;
            int r = call([&] { return WBCRYPTO_keystore_key_to_file(src.p, src.n, (char *)pb.p); });
            src.check("key"); eq("key-changed", src.bytes(), b, "storing changed the key");
            ev("store %zu = %d", b.size(), r);
            if (r == 1) { if (!dk_exists(path)) violate("success-without-file", "key_to_file succeeded but there is no file"); eq("wrong-file", dk_read(path), b, "key_to_file reported success for %zu bytes", b.size()); ks[f].ok = 1; probe(1); }
            else if (!g_hard_io) violate("spurious-failure", "key_to_file of %zu bytes failed without an I/O error", b.size());
            sig(mix64(0x300 + o.get("what"), (r == 1) + 2 * (g_hard_io > 0)));
        } else if (o.name == "load") {
            Key *k = nullptr; Bytes b; bool known = ks[f].op > 0 && (size_t)ks[f].op <= p.ops.size() && p.ops[(size_t)ks[f].op - 1].name == "store";
            if (known) b = stored(p.ops[(size_t)ks[f].op - 1], k);
            size_t n = known ? b.size() : 200; if (o.get("lenmode") == 1) n += 1 + (size_t)o.get("delta") % 5000; else if (o.get("lenmode") == 2 && n > 1) n -= 1 + (size_t)o.get("delta") % (n - 1);
            Buf dst(n, (int)o.get("al"));
            Bytes file = dk_read(path); bool ex = dk_exists(path);
            int r = call([&] { return WBCRYPTO_keystore_file_to_key(dst.p, n, (char *)pb.p); });
            dst.check("loaded key");
            ev("load %zu of %zu = %d", n, file.size(), r);
            if (r == 1) {
                if (!ex || file.size() < n) violate("short-accepted", "file_to_key of %zu bytes succeeded with a file of %zu bytes", n, file.size());
                eq("wrong-key", dst.bytes(), Bytes(file.begin(), file.begin() + (long)n), "file_to_key reported success");
                if (ks[f].ok && n == b.size()) eq("wrong-key", dst.bytes(), b, "the loaded key is not the stored one");
                if (ks[f].ok && k && n == b.size()) {                    // a working context
                    Bytes in = rbytes((uint64_t)i, 16), out(16); int rr = callq([&] { return block_fn(k->kind)(in.data(), out.data(), dst.p); });
                    u8 w[16]; k->blk->enc(in.data(), w);
                    if (rr != 1 || memcmp(w, out.data(), 16)) violate("not-working", "the loaded %s context does not encrypt like the stored one", kind_name[k->kind]);
                }
                probe(3);
            } else if (!g_hard_io && ex && file.size() >= n) violate("spurious-failure", "file_to_key of %zu bytes failed although the file has %zu", n, file.size());
            else probe(4);
            sig(mix64(0x400 + o.get("lenmode"), (r == 1) + 2 * (g_hard_io > 0) + 4 * ks[f].ok));
        } else if (o.name == "cut") { if (dk_exists(path)) { Bytes b = dk_read(path); if (!b.empty()) { b.resize((size_t)o.get("delta") % b.size()); dk_write(path, b); ks[f].ok = 0; S->ctr[F_TAMPER]++; } } }
        else if (o.name == "del") { dk_remove(path); ks[f].ok = 0; }
        else if (o.name == "restart") sim_crash_now();
        if (sim_open_files()) violate("file-left-open", "a key store operation left a file open");
    }
}
void gen7(Rng &r, Plan &p) {
    if (r.chance(0.25)) p.env["name"] = r.chance(0.3) ? r.range(1, 9) : r.range(10, 990);
    int n = (int)r.range(2, 9);
    for (int i = 0; i < n; i++) {
        int f = r.chance(0.15), x = (int)r.range(0, 19);
        if (i == 0 || x < 7) { Op &o = p.add("store"); o.set("f", f).set("seed", (int64_t)(r.next() >> 24)).set("al", r.range(0, 7)); int w = r.chance(0.6) ? 0 : (int)r.range(1, 3); o.set("what", w).set("key", r.range(0, POOLIDX - 1)); if (w == 3) o.set("kind", KWBAES); o.set("len", r.chance(0.3) ? r.range(1, 20) : r.chance(0.5) ? r.range(1, 3) * 4096 + r.range(-3, 3) : r.range(1, 9000)); if (r.chance(0.1)) o.set("shape", 1); if (w == 3 && p.env["bufsz"] && p.env["bufsz"] < 100) p.env["bufsz"] = 777; }
        else if (x < 8) p.add("restart").set("nofault", 1);
        else if (x < 9) p.add("cut").set("f", f).set("delta", (int64_t)(r.next() >> 40)).set("nofault", 1);
        else if (x < 10) p.add("del").set("f", f).set("nofault", 1);
        else { Op &o = p.add("load"); o.set("f", f).set("al", r.range(0, 7)).set("delta", (int64_t)(r.next() >> 40)); if (r.chance(0.3)) o.set("lenmode", r.range(1, 2)); }
    }
    p.add("load").set("f", r.range(0, 1));
}
RegMod r6(Module{"P06", gen6, exec6, "fcp", 5});
RegMod r7(Module{"P07", gen7, exec7, "fcp", 8});
RegMod r8(Module{"P08", gen8, exec8, "ap", 3});
}
