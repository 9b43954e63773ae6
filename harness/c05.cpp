// C05: the stateful (BDS) signer against the plain signer and the model, over whole histories.
#include "fab.hpp"
#include <cstring>
using namespace eng; using namespace lib; using namespace shapes;

static void diff(const Api &a, uint64_t i, const u8 *got, const u8 *want, size_t n, const char *who) {
    if (!memcmp(got, want, n)) return;
    size_t o = 0; while (got[o] == want[o]) o++;
    const ref::P &p = a.p; const char *part = "index"; unsigned layer = 0;
    size_t per = (p.len + p.th) * p.n;
    if (o >= p.idxb) part = "randomizer";
    if (o >= p.idxb + p.n) { size_t q = o - p.idxb - p.n; layer = q / per; part = q % per < p.len * p.n ? "one-time signature" : "authentication path"; }
    fail("%s: fast signature %llu differs from %s in byte %zu (%s, layer %u)", pname(p), (ull)i, who, o, part, layer);
}

struct Run {
    Api f; KeyPair kp; ref::Key key; uint64_t i = 0; Bytes b; bool reload;
    Run(const Api &a, uint64_t seed, bool rl) : f(a), kp(make_key(a, seed)), key(model_of(a, kp.sk.data())), b(seed), reload(rl) { key.compute_root(); }
    // signs message number i; compares with the model, and with the plain signer when given
    void step(const Api *plain, size_t mlen, bool cmp_model = true) {
        Buf m = b.get(mlen), sm(f.sig + mlen, 0x11); ull n = 0;
        if (reload) { Buf copy(kp.sk); memset(kp.sk.data(), 0xEE, kp.sk.size()); kp.sk.swap(copy); }   // other memory, old contents gone
        int r = f.sign(kp.sk.data(), sm.data(), &n, m.data(), mlen);
        if (r) fail("%s: fast signer returns %d at index %llu", pname(f.p), r, (ull)i);
        if (n != sm.size()) fail("%s: fast signer announces %llu bytes at index %llu", pname(f.p), n, (ull)i);
        if (mlen && memcmp(sm.data() + f.sig, m.data(), mlen)) fail("%s: message changed at index %llu", pname(f.p), (ull)i);
        if (plain) {
            KeyPair pk = plain_key(*plain, key, i); Buf s2(f.sig + mlen, 0x22); ull n2 = 0;
            r = plain->sign(pk.sk.data(), s2.data(), &n2, m.data(), mlen);
            if (r || n2 != n) fail("%s: plain signer returns %d, %llu bytes at index %llu", pname(f.p), r, n2, (ull)i);
            diff(f, i, sm.data(), s2.data(), f.sig + mlen, "the plain one");
        }
        if (cmp_model) { Buf w = key.sign(i, m.data(), mlen); diff(f, i, sm.data(), w.data(), w.size(), "the model"); }
        i++;
    }
};
static bool mocks() { return get("mockfast").mock_ok && get("mockbasic").mock_ok; }

// whole lifetime of a small shape: every signature against the plain signer and the model
static void whole(const Case &c, Ctx &x) {
    bool mock = c["mock"];
    if (mock && !mocks()) { x.skipped = true; return; }
    ref::P p = params(c, c["g"]);
    Api f = custom(get(mock ? "mockfast" : "fast"), p), pl = custom(get(mock ? "mockbasic" : "basic"), p);
    Run r(f, c["ks"], c["reload"]);
    uint64_t total = last_index(p) + 1, upto = std::min<uint64_t>(total, c["upto"]);
    bool slow = !mock && (p.w == 256 || upto > 70 || p.th > 5);      // the plain signer then takes a second per signature: it joins in at the ends of trees and now and then
    for (uint64_t i = 0; i < upto; i++) { unsigned cr = crossings(p, i); r.step(slow && !cr && i % 32 ? nullptr : &pl, (i * 5 + c["ks"]) % 40); x.label("signatures"); if (cr) x.label("subtree ends, layer " + std::to_string(cr - 1)); }
    x.nontrivial = upto > tree_mask(p) || p.d == 1; if (upto == total) x.label("complete lifetimes");
    x.sample = std::string(pname(p)) + " signatures=" + std::to_string(upto);
}
// long lifetimes of standard sets with the cheap one-time functions; every signature against the model,
// some against the plain signer
static void lifetime(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    const ref::P &p = ref::standard()[c["ps"]];
    Api f = api(get("mockfast"), p), pl = api(get("mockbasic"), p);
    Run r(f, c["ks"], c["reload"]);
    uint64_t total = std::min<uint64_t>(last_index(p) + 1, c["upto"]);
    unsigned every = p.th <= 5 ? 4096 : p.th <= 10 ? 65536 : 1 << 30;
    for (uint64_t i = 0; i < total; i++) {
        unsigned cr = crossings(p, i);
        bool pc = every < (1u << 30) && (i % every == every - 3 || cr > 1 || (i && crossings(p, i - 1) > 1));
        r.step(pc ? &pl : nullptr, i % 3);
        if (cr) x.label("subtree ends, layer " + std::to_string(cr - 1));
    }
    x.label("signatures", total); if (total == last_index(p) + 1) x.label("complete lifetimes");
    x.nontrivial = true; x.sample = std::string(pname(p)) + " signatures=" + std::to_string(total);
}
// real hashing: the first signatures of a standard set against the plain signer
static void real_oid(const Case &c, Ctx &x) {
    const ref::P &p = ref::standard()[c["ps"]];
    Api f = api(get("fast"), p), pl = api(get("basic"), p);
    Run r(f, c["ks"], true); r.key.root.assign(r.kp.sk.data() + 4 + p.idxb + 2 * p.n, r.kp.sk.data() + 4 + p.idxb + 3 * p.n);
    uint64_t upto = c["upto"];
    for (uint64_t i = 0; i < upto; i++) r.step(i + 3 >= upto || i % 16 == 15 ? &pl : nullptr, i % 50, false);
    x.nontrivial = true; x.label("signatures", upto); x.sample = std::string(pname(p)) + " signatures=" + std::to_string(upto);
}
// Far into the lifetime the traversal state cannot be reached by signing. The index bytes of a young fast key are
// advanced by hand: the part of the signature that does not depend on the state must still equal the plain signer's,
// and the one-time keys it touches must be those of the current or the following trees.
static uint64_t far_idx; static const ref::P *far_p; static std::string far_bad;
static void far_log(const uint32_t *a, const u8 *, unsigned) {
    unsigned l = a[0]; const ref::P &p = *far_p; uint64_t tree = (uint64_t)a[1] << 32 | a[2];
    for (uint64_t d = 0; d < 2; d++) {
        uint64_t i = far_idx + d;
        if (l < p.d && tree == ((l + 1) * p.th >= 64 ? 0 : i >> ((l + 1) * p.th)) && a[4] == ((i >> (l * p.th)) & tree_mask(p))) return;
    }
    char b[160]; snprintf(b, sizeof b, "one-time key (layer %u, tree %llu, leaf %u) is used at index %llu", l, (ull)tree, a[4], (ull)far_idx); far_bad = b;
}
static void far(const Case &c, Ctx &x) {
    const Lib &L = get("mockfast"); if (!mocks()) { x.skipped = true; return; }
    const ref::P &p = ref::standard()[c["ps"]];
    Api f = api(L, p); Run r(f, 5, false); const ref::P &q = f.p;
    ref::Key k = model_of(f, r.kp.sk.data()); k.root = r.key.root;
    uint64_t idx = pick_index(p, c);
    for (int s = 0; s < 2 && idx <= last_index(p); s++, idx++) {
        f.set_index(r.kp.sk.data(), idx);
        Buf m = message(c), sm(f.sig + m.size()); ull n = 0;
        far_idx = idx; far_p = &q; far_bad.clear(); if (L.wots_log) *L.wots_log = far_log;
        int rc = f.sign(r.kp.sk.data(), sm.data(), &n, m.data(), m.size());
        if (L.wots_log) *L.wots_log = nullptr;
        if (rc) fail("%s: fast signer returns %d at index %llu", pname(p), rc, (ull)idx);
        if (!far_bad.empty()) fail("%s: %s", pname(p), far_bad.c_str());
        Buf w = k.prefix(idx, m.data(), m.size());
        diff(f, idx, sm.data(), w.data(), w.size(), "the model");
        if (idx < last_index(p) && f.index(r.kp.sk.data()) != idx + 1) fail("%s: index after %llu is %llu", pname(p), (ull)idx, (ull)f.index(r.kp.sk.data()));
    }
    x.nontrivial = true; if (idx >> 32) x.label("index above 32 bits"); x.label("crossings " + std::to_string(crossings(p, idx - 2)));
    x.sample = std::string(pname(p)) + " idx=" + std::to_string(idx - 2);
}

// Keys of the fast signer with the traversal state filled in for a generated index (see fab.hpp): several signatures
// from there on, across the ends of trees at high layers, against the model and the plain signer.
static void jump(const Case &c, Ctx &x) {
    bool mock = c["mock"]; if (mock && !mocks()) { x.skipped = true; return; }
    std::string pre = mock ? "mock" : ""; const ref::P &q = c.v.count("ps") ? ref::standard()[c["ps"]] : params(c, c["g"]);
    Api f = api(get(pre + "fast"), q), pl = api(get(pre + "basic"), q); const ref::P &p = f.p;
    if (!fab::usable(*f.L)) { x.skipped = true; x.label("state layout unknown"); return; }
    ref::Key fresh(p, {}, {}, {}), *k; if (p.th >= 10) k = &cached_key(p, c["ks"]); else { Bytes b(mix(c["ks"], 0x6a)); fresh = ref::Key(p, b.get(p.n), b.get(p.n), b.get(p.n)); k = &fresh; }
    uint64_t idx = pick_index(p, c), cnt = c["cnt"]; unsigned lag = 0;
    // start before the end of a tree of some layer, far enough for the missing leaves of the following trees
    if (c["lv"] > 0) { unsigned l = (unsigned)(c["lv"] - 1) % p.d; uint64_t span = (l + 1) * p.th >= 63 ? ~0ULL : (1ULL << ((l + 1) * p.th)) - 1, e = std::min(idx | span, last_index(p)), back = 1 + c["bk"] % (l ? 3ULL << p.th : 1ULL << p.th);
        if (p.th == 5 && p.k == 0 && l == 1 && c["lg"] && e > (3ULL << p.th)) { lag = (unsigned)c["lg"]; back = std::max<uint64_t>(back, 2ULL << p.th); cnt = std::max<uint64_t>(cnt, back + 3); }
        else back = 1 + back % std::max<uint64_t>(1, cnt);
        idx = e > back ? e - back : 0; }
    if (idx > last_index(p)) idx = last_index(p);
    KeyPair kp = fab::key(f, *k, idx, lag); Bytes b(mix(c["ks"], 7)); uint64_t start = idx, done = 0; unsigned ends = 0;
    for (; done < cnt && idx <= last_index(p); done++, idx++) {
        Buf m = b.get(b.below(60)), sm(f.sig + m.size(), 0x11); ull n = 0;
        if (c["reload"]) { Buf t(kp.sk); memset(kp.sk.data(), 0xEE, kp.sk.size()); kp.sk.swap(t); }
        int r = f.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
        if (r || n != sm.size()) fail("%s: fast signer returns %d, length %llu at index %llu (key placed at %llu)", pname(p), r, n, (ull)idx, (ull)start);
        Buf w = k->sign(idx, m.data(), m.size()); diff(f, idx, sm.data(), w.data(), w.size(), "the model");
        if (memcmp(sm.data() + f.sig, m.data(), m.size())) fail("%s: message is not at the end of signature %llu", pname(p), (ull)idx);
        if (p.th <= 5 && (done < 2 || crossings(p, idx - (idx > 0)) > 1)) {
            KeyPair pk = plain_key(pl, *k, idx); Buf s2(f.sig + m.size(), 0x22); ull n2 = 0;
            if (pl.sign(pk.sk.data(), s2.data(), &n2, m.data(), m.size())) fail("%s: plain signer fails at index %llu", pname(p), (ull)idx);
            diff(f, idx, sm.data(), s2.data(), s2.size(), "the plain one");
        }
        ends = std::max(ends, crossings(p, idx));
    }
    x.label("signatures", done); x.label("highest layer whose tree ends: " + (ends ? std::to_string(ends - 1) : std::string("none"))); if (start >> 32) x.label("index above 32 bits"); if (lag) x.label("following trees incomplete");
    x.nontrivial = done > 1 && ends; x.sample = std::string(pname(p)) + " from=" + std::to_string(start) + " signatures=" + std::to_string(done);
}

// many starts inside one tall tree, carries between all bits of the leaf number
static void tall(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api f = api(get("mockfast"), ref::standard()[c["ps"]]); const ref::P &p = f.p;
    if (!fab::usable(*f.L)) { x.skipped = true; x.label("state layout unknown"); return; }
    ref::Key &k = cached_key(p, c["ks"]); Bytes b(mix(c["tt"], 7));
    for (uint64_t start : fab::tall_starts(p, c)) {
        KeyPair kp = fab::key(f, k, start); uint64_t idx = start;
        for (unsigned s = 0; s < 4 && idx <= last_index(p); s++, idx++) {
            Buf m = b.get(b.below(60)), sm(f.sig + m.size(), 0x11); ull n = 0;
            int r = f.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
            if (r || n != sm.size()) fail("%s: fast signer returns %d, length %llu at index %llu (key placed at %llu)", pname(p), r, n, (ull)idx, (ull)start);
            Buf w = k.sign(idx, m.data(), m.size()); diff(f, idx, sm.data(), w.data(), w.size(), "the model");
            x.label("signatures");
        }
        x.label("starts");
    }
    uint64_t starts = c.lst("st").size() + (uint64_t)c["more"]; x.nontrivial = starts > 3; x.sample = std::string(pname(p)) + " starts=" + std::to_string(starts);
}

void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, const char *k, int64_t x) { for (auto &e : f) e[k] = x; return f; };
    // long single cases first, so that they overlap with everything else
    std::vector<Fixed> life;
    auto add = [&](const char *name, int64_t upto) { for (auto &f : pick([&](const ref::P &p) { return p.name == name; })) { auto g = f; g["upto"] = upto; life.push_back(g); } };
    if (T) for (auto &p : ref::standard()) {
        if (p.th == 20 && p.d == 1) add(p.name.c_str(), 1 << 20); else if (p.th == 20) { if (p.n == 24 && p.func == 0) add(p.name.c_str(), (1 << 20) + 5000); }
        else if (p.h == 60 && p.d == 12 && p.n == 24) add(p.name.c_str(), (1 << 25) + 1000); else add(p.name.c_str(), (1 << 20) + 40000);
    } else {
        add("XMSSMT-SHA2_40/8_192", (1 << 20) + 40); add("XMSSMT-SHA2_20/4_192", 1 << 20); add("XMSSMT-SHA2_20/2_192", 1 << 20);
        add("XMSSMT-SHA2_60/12_256", 140000); add("XMSSMT-SHAKE256_40/4_192", 140000); add("XMSS-SHA2_16_192", 1 << 16);
        add("XMSSMT-SHA2_40/2_192", 70000); add("XMSSMT-SHA2_60/6_256", 140000); add("XMSS-SHA2_16_512", 9000);
        for (auto &p : ref::standard()) if (p.th == 10 && p.d == 1) add(p.name.c_str(), 1024);
        for (auto &p : ref::standard()) if (p.mt && p.th <= 10 && p.n >= 32) add(p.name.c_str(), 2100);
    }
    v.push_back({"lifetime", {num("ks", 0, 1 << 30), num("reload", 0, 1)}, life, 1, 1, lifetime});
    v.back().rule = "a key of a standard set signs from index 0 on (cheap one-time functions), every signature compared with the model, samples with the plain signer"; v.back().hang_s = T ? 3600 : 300; v.back().max_shrinks = 2;
    auto small = all(T ? 14 : 10), big = all(T ? 18 : 14, T ? 15 : 11);
    v.push_back({"tall", fab::tall_fields(), fab::tall_sets(T), 3, 3, tall}); v.back().max_shrinks = 8; v.back().hang_s = 300;
    v.back().rule = "subtree heights 16 and 20, traversal state filled in for up to 260 generated indices of one tree (carries between all bits of the leaf number): four signatures from each against the model; non-trivial: more than 3 starts";
    v.push_back({"shapes", {num("ks", 0, 1 << 30), num("reload", 0, 1), num("g", 0, 6)}, with(with(strata(small), "mock", 1), "upto", 1 << 20), T ? 3 : 1, 1, whole});
    v.back().rule = "complete lifetime of every legal (height, layers, k) up to the height bound, every signature compared with plain signer and model"; v.back().max_shrinks = 6;
    std::vector<S> b2; for (auto &s : big) if (T || s.th <= 4 || s.k > 3) b2.push_back(s);
    if (!T) { std::vector<S> b3; for (auto &s : b2) if (s.d >= 3 || s.th >= 11) b3.push_back(s); b2 = b3; }
    std::vector<S> b4; for (auto &s : b2) if (s.th <= 6) b4.push_back(s);
    v.push_back({"deep", {num("ks", 0, 1 << 30), num("reload", 0, 1), num("g", 4, 6)}, with(with(strata(b4), "mock", 1), "upto", 1 << 20), 1, 1, whole});
    v.back().rule = "the same for longer lifetimes and many layers"; v.back().max_shrinks = 2; v.back().hang_s = T ? 3600 : 300;
    v.push_back({"far", cat(index_fields(), message_fields(300)), pick([](const ref::P &p) { return p.th <= 10; }), T ? 60 : 4, T ? 10 : 4, far});
    v.back().rule = "young fast key with its index set by hand: index, randomizer, one-time signature against the model, one-time addresses in the current or next trees";
    std::vector<Field> jf = cat(index_fields(), {num("ks", 0, T ? 1 << 30 : 3), num("cnt", {{3, 2, 12}, {1, 30, 90}}), num("reload", 0, 1), num("lv", {{1, 0, 0}, {4, 1, 12}}), num("bk", 0, 1 << 20), num("lg", 0, 3)});
    v.push_back({"jump", jf, with(pick([](const ref::P &p) { return p.th <= 10; }), "mock", 1), T ? 400 : 30, T ? 10 : 6, jump}); v.back().max_shrinks = 60;
    v.back().rule = "standard set, traversal state filled in for a generated index: signatures from there on against model and plain signer; non-trivial: at least two signatures and the end of a tree";
    v.push_back({"jump-high", cat(index_fields(), {num("ks", 0, 0), num("cnt", {{1, 2, 6}, {2, 100, 400}}), num("reload", 0, 1), num("lv", 1, 3), num("bk", 0, 1 << 20), num("lg", 0, 0)}), with(pick([&](const ref::P &p) { return p.th == 16 || (p.th == 20 && (T || (p.n == 24 && p.func == 0))); }), "mock", 1), T ? 6 : 1, 1, jump}); v.back().max_shrinks = 3;
    v.back().rule = "the same for subtree heights 16 and 20";
    auto js = cat(jf, {num("g", 0, 6)});
    std::vector<S> tall; for (auto &s : std::vector<S>{{2, 20, 0}, {2, 31, 0}, {3, 15, 1}, {3, 20, 0}, {4, 15, 2}, {5, 12, 3}, {6, 10, 2}, {7, 9, 5}, {8, 7, 4}, {9, 7, 3}, {9, 3, 1}, {11, 5, 1}, {12, 5, 4}, {12, 3, 0}, {8, 4, 6}, {4, 8, 0}, {6, 6, 4}, {10, 1, 4}, {12, 1, 10}, {11, 1, 3}, {7, 8, 1}}) tall.push_back(s);
    v.push_back({"jump-shapes", js, with(strata(tall), "mock", 1), T ? 400 : 30, T ? 10 : 6, jump}); v.back().max_shrinks = 60;
    v.back().rule = "the same for shapes with many layers, large heights and all kinds of k";
    v.push_back({"jump-real", jf, with(pick([&](const ref::P &p) { return p.th == 5 && (T || (p.func == 0 && p.n < 64)); }), "mock", 0), T ? 12 : 1, 1, jump}); v.back().max_shrinks = 4;
    v.back().rule = "the same with real hashing";
    std::vector<S> rs = {{2, 1, 0}, {4, 1, 2}, {5, 1, 3}, {2, 2, 0}, {3, 2, 1}, {2, 3, 0}, {4, 2, 2}, {3, 3, 0}};
    v.push_back({"real-shapes", {num("ks", 0, 1 << 30), num("reload", 0, 1), num("wi", 0, 2), num("g", {{3, 0, 0}, {1, 1, 6}})}, with(with(strata(rs), "mock", 0), "upto", T ? 512 : 70), T ? 12 : 2, 1, whole});
    v.back().rule = "real hashing: complete lifetimes of small shapes, w=4,16,256"; v.back().max_shrinks = 10;
    if (T || !mocks_reached()) {
        std::vector<S> rd = {{8, 1, 4}, {8, 1, 0}, {6, 2, 2}, {5, 3, 1}, {4, 4, 2}, {3, 5, 1}, {2, 8, 0}, {2, 5, 0}, {7, 1, 3}, {6, 1, 4}, {4, 5, 0}, {5, 3, 3}};
        v.push_back({"deep-hashed", {num("ks", 0, 1 << 30), num("reload", 0, 1), num("wi", 0, 0), num("g", 0, 0)}, with(with(strata(rd), "mock", 0), "upto", T ? 1100 : 260), 1, 1, whole}); v.back().max_shrinks = 8;
        v.back().rule = "the same for longer lives, compared with the plain signer now and then";
    }
    v.push_back({"real-oid", {num("ks", 0, 1 << 30), num("upto", {{1, 30, 40}, {T ? 1 : 0, 1020, 1030}})}, pick([&](const ref::P &p) { return p.th == 5 && (T || (p.func == 0 && p.n < 64) || p.d == 4); }), T ? 2 : 1, 1, real_oid});
    v.back().rule = "real hashing: first signatures of standard sets with subtree height 5 against the plain signer"; v.back().max_shrinks = 6;
    more_real(v, 3);
    return v;
}
