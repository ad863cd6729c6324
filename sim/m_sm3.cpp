// P12: SM3 update histories
#include "lib.h"
namespace {
struct Slot { WBCRYPTO_sm3_context c; Sm3Ref ref; bool on = false; uint64_t n = 0; };
void do_op(Slot &s, const Op &o, int idx) {
    sim_set_op(idx); S->ctr[C_OPS]++;
    auto data = [&] { return rbytes((uint64_t)o.get("seed"), (size_t)o.get("len"), (int)o.get("shape")); };
    if (o.name == "init") {
        if (o.get("dirty")) { Bytes g = rbytes((uint64_t)o.get("seed"), sizeof s.c); memcpy(&s.c, g.data(), sizeof s.c); }
        int r = call([&] { return WBCRYPTO_sm3_init(&s.c); });
        if (r != 1) violate("init-failed", "sm3_init returned %d", r);
        s.ref.reset(); s.on = true; s.n = 0; ev("init");
    } else if (o.name == "upd" && s.on) {
        Bytes d = data(); Buf b(d, (int)o.get("al"));
        int r = call([&] { return WBCRYPTO_sm3_update(&s.c, b.p, b.n); });
        if (r != 1) violate("update-failed", "sm3_update(%zu bytes) returned %d", d.size(), r);
        b.check("sm3 input"); eq("input-changed", b.bytes(), d, "sm3_update changed its input");
        s.ref.update(d.data(), d.size()); sig(mix64(s.n % 64, d.size() % 64 + 64 * std::min<uint64_t>(d.size() / 64, 3))); s.n += d.size(); ev("upd %zu", d.size());
    } else if (o.name == "big" && s.on) {                       // more than 2^32 bits in all
        Bytes d = rbytes((uint64_t)o.get("seed"), 64u << 20); int64_t k = o.get("times", 8), tail = o.get("tail");
        for (int64_t i = 0; i < k; i++) {
            size_t n = d.size() - (i ? 0 : (size_t)(tail & 0xffff));
            if (call([&] { return WBCRYPTO_sm3_update(&s.c, d.data(), n); }) != 1) violate("update-failed", "sm3_update(%zu bytes) failed", n);
            s.ref.update(d.data(), n); s.n += n;
        }
        probe(0); ev("big %lld", (long long)s.n);
    } else if (o.name == "huge" && s.on) {                      // one update of 2^29 or 2^32 bytes and more
        size_t n = (size_t)o.get("len"); u8 *d = (u8 *)calloc(1, n);
        if (!d) { ev("huge update skipped: no memory"); s.on = false; return; }
        Rng r((uint64_t)o.get("seed")); for (size_t i = 0; i < n; i += (64u << 20) - 129) d[i] = (u8)r.next();
        d[n - 1] = 0x5a;
        if (call([&] { return WBCRYPTO_sm3_update(&s.c, d, n); }) != 1) violate("update-failed", "sm3_update(%zu bytes) failed", n);
        s.ref.update(d, n); s.n += n; free(d); probe(1); ev("huge %zu", n);
    } else if (o.name == "fin" && s.on) {
        Buf d(32, (int)o.get("al"));
        int r = call([&] { return WBCRYPTO_sm3_final(&s.c, d.p); });
        if (r != 1) violate("final-failed", "sm3_final returned %d", r);
        d.check("sm3 digest");
        eq("wrong-digest", d.bytes(), s.ref.final(), "sm3 of %llu bytes in updates", (unsigned long long)s.n);
        evhash("md", d.p, 32); s.on = false;
    } else if (o.name == "one") {
        Bytes m = data(); Buf b(m, (int)o.get("al")), d(32, (int)o.get("al"));
        int r = call([&] { return WBCRYPTO_sm3(b.p, b.n, d.p); });
        if (r != 1) violate("oneshot-failed", "sm3 returned %d", r);
        d.check("sm3 digest"); eq("input-changed", b.bytes(), m, "sm3 changed its input");
        eq("wrong-digest", d.bytes(), sm3_ref(m), "sm3 of %zu bytes", m.size());
        evhash("md", d.p, 32);
    }
}
void exec(const Plan &p, int start) {
    static Slot sl[4];
    if (p.e("conc")) {
        std::vector<std::function<void()>> fs; std::vector<int> ops;
        for (int t = 0; t < 4; t++) {
            std::vector<int> mine; for (size_t i = 0; i < p.ops.size(); i++) if ((p.ops[i].get("slot") & 3) == t) mine.push_back((int)i);
            if (mine.empty()) continue;
            ops.push_back(mine[0]); fs.push_back([&, t, mine] { for (int i : mine) do_op(sl[t], p.ops[(size_t)i], i); });
        }
        run_concurrent(fs, ops);
    } else for (size_t i = (size_t)start; i < p.ops.size(); i++) do_op(sl[p.ops[i].get("slot") & 3], p.ops[i], (int)i);
}
int ulen(Rng &r) {
    switch (r.range(0, 6)) {
        case 0: return 0;
        case 1: return (int)r.range(1, 8);
        case 2: return (int)r.range(50, 70);
        case 3: return (int)r.range(0, 20) * 64;
        case 4: return (int)(r.range(1, 6) * 64 + r.range(-9, 9));
        case 5: return (int)r.range(0, 300);
        default: return (int)r.range(0, 64);
    }
}
void gen(Rng &r, Plan &p) {
    int64_t hi = p.e("idx") - 20000000;
    if (hi == 0 || hi == 3300) {                   // the second only in the thorough tier; build B only
        p.add("init").set("slot", 0).set("dirty", 1).set("seed", 3); if (r.chance(0.5)) p.add("upd").set("slot", 0).set("len", ulen(r)).set("seed", 4);
        p.add("huge").set("slot", 0).set("len", (hi ? 1ll << 32 : (1ll << 29) + (1 << 28)) + r.range(0, 200)).set("seed", (int64_t)(r.next() >> 16));
        if (!hi) p.add("huge").set("slot", 0).set("len", (1ll << 29) + r.range(0, 200)).set("seed", 8);
        p.add("upd").set("slot", 0).set("len", ulen(r)).set("seed", 9); p.add("fin").set("slot", 0);
        p.env["nofan"] = 1; p.env["cpu"] = 300; return;
    }
    int slots = (int)r.range(1, 4), n = (int)r.range(4, 60); std::vector<int> on(4, 0);
    bool big = strcmp(VARIANT, "B") == 0 && r.chance(0.004);
    for (int i = 0; i < n; i++) {
        int s = (int)r.range(0, slots - 1);
        if (!on[(size_t)s]) { p.add("init").set("slot", s).set("dirty", r.range(0, 1)).set("seed", (int64_t)(r.next() >> 16)); on[(size_t)s] = 1; }
        int x = (int)r.range(0, 9);
        if (x < 7) { Op &o = p.add("upd"); o.set("slot", s).set("len", ulen(r)).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 7)); if (r.chance(0.1)) o.set("shape", r.range(1, 2)); }
        else if (x < 9) { if (big) { p.add("big").set("slot", s).set("times", 8).set("tail", r.range(0, 130)).set("seed", 5); big = false; p.add("upd").set("slot", s).set("len", r.range(0, 130)).set("seed", 9); } p.add("fin").set("slot", s).set("al", r.range(0, 7)); on[(size_t)s] = 0; }
        else { Op &o = p.add("one"); o.set("slot", s).set("len", r.chance(0.3) ? r.range(0, 20000) : ulen(r)).set("seed", (int64_t)(r.next() >> 16)).set("al", r.range(0, 7)); }
    }
    for (int s = 0; s < slots; s++) if (on[(size_t)s]) p.add("fin").set("slot", s);
    p.env["conc"] = slots > 1 && r.chance(0.3);
}
RegMod r12(Module{"P12", gen, exec, "s", 2});
}
