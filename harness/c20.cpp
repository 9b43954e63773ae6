// C20: the work of one call is bounded, whatever the key's history, the index and the input bytes.
#include "fab.hpp"
#include "synth.hpp"
#include <cstring>
#include <dlfcn.h>
using namespace eng; using namespace lib; using namespace shapes;

static bool mocks() { return get("mockfast").mock_ok && get("mockbasic").mock_ok; }
struct Work { ull leaves, sigs, recs, nodes; };
static Work now(const Lib &L) { return {L.mock_calls[0], L.mock_calls[1], L.mock_calls[2], L.mock_calls[3]}; }
static Work since(const Lib &L, const Work &b) { Work w = now(L); return {w.leaves - b.leaves, w.sigs - b.sigs, w.recs - b.recs, w.nodes - b.nodes}; }
// what one call may spend
static Work sign_bound(const ref::P &p, bool fast, uint64_t idx) {
    if (!fast) return {(ull)p.d << p.th, p.d, 0, ((ull)p.d << p.th) * p.len};
    ull L = (p.th - p.k) / 2 + 2;
    return {L, 1ULL + crossings(p, idx), 0, L * (p.len - 1 + p.th) + p.d};
}
static Work keypair_bound(const ref::P &p, bool fast) { ull t = fast ? p.d : 1; return {t << p.th, fast ? p.d - 1 : 0, 0, (t << p.th) * p.len}; }
static Work open_bound(const ref::P &p) { return {0, 0, p.d, (ull)p.d * (p.len - 1 + p.th)}; }
static void within(const ref::P &p, const char *what, uint64_t idx, const Work &w, const Work &b) {
    if (w.leaves > b.leaves) fail("%s: %s at index %llu computes %llu leaves, the bound is %llu", pname(p), what, (ull)idx, w.leaves, b.leaves);
    if (w.sigs > b.sigs) fail("%s: %s at index %llu makes %llu one-time signatures, the bound is %llu", pname(p), what, (ull)idx, w.sigs, b.sigs);
    if (w.recs > b.recs) fail("%s: %s at index %llu recomputes %llu one-time keys, the bound is %llu", pname(p), what, (ull)idx, w.recs, b.recs);
    if (w.nodes > b.nodes) fail("%s: %s at index %llu computes %llu tree nodes, the bound is %llu", pname(p), what, (ull)idx, w.nodes, b.nodes);
}
static void signs(const Api &a, Buf &sk, uint64_t idx, uint64_t cnt, Bytes &b, Ctx &x) {
    const ref::P &p = a.p; uint64_t n_ends = 0; ull most = 0;
    for (uint64_t i = 0; i < cnt && idx <= last_index(p); i++, idx++) {
        Buf m = b.get(b.below(40)), sm(a.sig + m.size()); ull n = 0; Work w = now(*a.L);
        int r = a.sign(sk.data(), sm.data(), &n, m.data(), m.size()); w = since(*a.L, w);
        if (r) fail("%s: signing at index %llu returns %d", pname(p), (ull)idx, r);
        within(p, a.L->fast ? "fast signing" : "plain signing", idx, w, sign_bound(p, a.L->fast, idx));
        most = std::max(most, w.leaves); unsigned cr = crossings(p, idx); n_ends += cr > 0; if (cr > 1) x.label("ends of trees on " + std::to_string(cr) + " layers");
    }
    x.label("signatures", cnt); if (a.L->fast && most == sign_bound(p, true, 0).leaves) x.label("bound on leaves met"); x.nontrivial = x.nontrivial || n_ends || cnt > 3;
    if (idx > last_index(p)) {   // refusals cost nothing
        Buf sm(a.sig); ull n = 0; u8 m = 0; Work w = now(*a.L); a.sign(sk.data(), sm.data(), &n, &m, 0); within(p, "a refusal", idx, since(*a.L, w), {0, 0, 0, 0}); x.label("refusals");
    }
}
static void whole(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    ref::P q = params(c, c["g"]); Api a = custom(get("mockfast"), q); const ref::P &p = a.p; Bytes b(c["ks"]);
    Work w = now(*a.L); KeyPair kp = make_key(a, c["ks"]); within(p, "key generation", 0, since(*a.L, w), keypair_bound(p, true));
    signs(a, kp.sk, 0, last_index(p) + 1, b, x); x.sample = pname(p);
}
static void grown(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a = api(get("mockfast"), ref::standard()[c["ps"]]); const ref::P &p = a.p; Bytes b(c["ks"]);
    Work w = now(*a.L); KeyPair kp = make_key(a, c["ks"]); within(p, "key generation", 0, since(*a.L, w), keypair_bound(p, true));
    signs(a, kp.sk, 0, c["upto"], b, x); x.sample = std::string(pname(p)) + " signatures=" + std::to_string(c["upto"]);
}
static void jump(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    const ref::P &q = c.v.count("ps") ? ref::standard()[c["ps"]] : params(c, c["g"]); Api a = custom(get("mockfast"), q); if (q.oid) a = api(get("mockfast"), q); const ref::P &p = a.p;
    if (!fab::usable(*a.L)) { x.skipped = true; x.label("state layout unknown"); return; }
    uint64_t idx = pick_index(p, c), cnt = c["cnt"];
    if (c["lv"] > 0) { unsigned l = (unsigned)(c["lv"] - 1) % p.d; uint64_t span = (l + 1) * p.th >= 63 ? ~0ULL : (1ULL << ((l + 1) * p.th)) - 1, e = std::min(idx | span, last_index(p)); idx = e - std::min(e, 1 + c["bk"] % cnt); }
    ref::Key fresh(p, {}, {}, {}), *k; if (p.th >= 10) k = &cached_key(p, c["ks"]); else { Bytes z(mix(c["ks"], 0x6a)); fresh = ref::Key(p, z.get(p.n), z.get(p.n), z.get(p.n)); k = &fresh; }
    KeyPair kp = fab::key(a, *k, idx); Bytes b(c["ks"]); signs(a, kp.sk, idx, cnt, b, x);
    if (idx >> 32) x.label("index above 32 bits"); x.sample = std::string(pname(p)) + " from=" + std::to_string(idx);
}
static void tall(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a = api(get("mockfast"), ref::standard()[c["ps"]]); const ref::P &p = a.p;
    if (!fab::usable(*a.L)) { x.skipped = true; x.label("state layout unknown"); return; }
    ref::Key &k = cached_key(p, c["ks"]); Bytes b(mix(c["tt"], 7));
    for (uint64_t start : fab::tall_starts(p, c)) { KeyPair kp = fab::key(a, k, start); signs(a, kp.sk, start, 4, b, x); }
    uint64_t starts = c.lst("st").size() + (uint64_t)c["more"]; x.nontrivial = starts > 3; x.sample = std::string(pname(p)) + " starts=" + std::to_string(starts);
}
static void plain(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a = api(get("mockbasic"), ref::standard()[c["ps"]]); const ref::P &p = a.p; Bytes b(c["ks"]);
    Work w = now(*a.L); KeyPair kp = make_key(a, c["ks"]); within(p, "key generation", 0, since(*a.L, w), keypair_bound(p, false));
    uint64_t idx = pick_index(p, c); a.set_index(kp.sk.data(), idx); signs(a, kp.sk, idx, 2, b, x); x.nontrivial = true;
    if (p.d > 1 && idx >> 32) x.label("index above 32 bits"); x.sample = std::string(pname(p)) + " idx=" + std::to_string(idx);
}
// verification of valid, damaged and arbitrary signed messages
static void opens(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a = api(get(c["fast"] ? "mockfast" : "mockbasic"), ref::standard()[c["ps"]]); const ref::P &p = a.p; Bytes b(c["cs"]);
    size_t ml = b.below(100); Buf s, pk = b.get(a.pk); if (a.off) ref::to_bytes(pk.data(), 4, p.oid);
    switch (c["kind"]) {
    case 0: s = b.get(a.sig + ml); break;
    case 1: s = b.get(b.below(a.sig + 1)); break;
    case 2: s = Buf(a.sig + ml, 0xff); break;
    default: { ref::Key *k = &cached_key(p, c["ks"]); (void)k; synth::Synth y(p, pick_index(p, c), c["ks"]); Buf R = b.get(p.n), m = b.get(ml); s = y.sign(y.root, R, m); pk = y.pk(a, y.root); if (c["kind"] == 4) s[b.below(s.size())] ^= 1 << b.below(8); }
    }
    Buf o(std::max(s.size(), a.sig)); ull n = 0; Work w = now(*a.L); int r = a.open(o.data(), &n, s.data(), s.size(), pk.data());
    w = since(*a.L, w); within(p, "verification", s.size() >= p.idxb ? ref::to_int(s.data(), p.idxb) : 0, w, s.size() < a.sig ? Work{0, 0, 0, 0} : open_bound(p));
    x.label(r ? "rejected" : "accepted"); x.nontrivial = s.size() >= a.sig; x.sample = std::string(pname(p)) + " kind " + std::to_string(c["kind"]);
}
// real hashing: number of hash computations per call
static ull hashes; static void count() { hashes++; }
static void real(const Case &c, Ctx &x) {
    bool fast = c["fast"]; const Lib &L = get(fast ? "yieldfast" : "yieldbasic"); if (!L.yield) { x.skipped = true; return; }
    const ref::P &q = c.v.count("ps") ? ref::standard()[c["ps"]] : params(c, c["g"]); Api a = q.oid ? api(L, q) : custom(L, q); const ref::P &p = a.p;
    auto cost = [&](const Work &w) { ull ots = p.len + 3ULL * p.len * (p.w - 1); return w.leaves * ots + w.sigs * ots + w.recs * 3ULL * p.len * (p.w - 1) + 4 * w.nodes + 8; };
    auto judge = [&](const char *what, uint64_t idx, const Work &b) { ull n = (hashes + 1) / 2, m = cost(b); if (n > m) fail("%s: %s at index %llu computes %llu hashes, the bound is %llu", pname(p), what, (ull)idx, n, m); if (n == 0 && idx <= last_index(p)) { x.skipped = true; } };
    *L.yield = count; hashes = 0; ull *bytes = (ull *)dlsym(L.h, "verif_long_bytes");
    struct Off { const Lib &L; ~Off() { *L.yield = nullptr; } } off{L};
    KeyPair kp = make_key(a, c["ks"]); judge("key generation", 0, keypair_bound(p, fast)); if (x.skipped) return;
    Bytes b(c["ks"]); uint64_t idx = 0; if (!fast) { idx = pick_index(p, c); a.set_index(kp.sk.data(), idx); }
    for (uint64_t i = 0; i < (uint64_t)c["cnt"] && idx <= last_index(p); i++, idx++) {
        Buf m = b.get(b.below(3) ? b.below(40) : 1000 + b.below(30000)), sm(a.sig + m.size()), o(sm.size()); ull n = 0; hashes = 0; if (bytes) *bytes = 0;
        auto once = [&](const char *what) {     // the message goes through the hash function once
            if (bytes && *bytes > m.size() + p.pad + 3 * p.n + 64) fail("%s: %s at index %llu puts %llu bytes through the hash function for a message of %zu", pname(p), what, (ull)idx, *bytes, m.size());
            if (bytes) { if (m.size() >= 1000 && *bytes) x.label("long messages"); *bytes = 0; } };
        if (a.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size())) fail("%s: signing at index %llu fails", pname(p), (ull)idx);
        judge(fast ? "fast signing" : "plain signing", idx, sign_bound(p, fast, idx)); once(fast ? "fast signing" : "plain signing"); hashes = 0;
        if (b.below(2)) sm[b.below(sm.size())] ^= 1;
        a.open(o.data(), &n, sm.data(), sm.size(), kp.pk.data()); judge("verification", idx, open_bound(p)); once("verification"); x.label("signatures");
    }
    x.nontrivial = true; x.sample = std::string(pname(p)) + (fast ? " fast" : " plain");
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v; std::vector<Fixed> life;
    auto add = [&](const char *name, int64_t upto) { for (auto &f : pick([&](const ref::P &p) { return p.name == name; })) { auto g = f; g["upto"] = upto; life.push_back(g); } };
    if (T) { for (auto &p : ref::standard()) add(p.name.c_str(), std::min<uint64_t>(last_index(p) + 1, p.th == 20 && p.n > 24 ? 20000 : (1 << 20) + 200)); }
    else { add("XMSSMT-SHA2_40/8_192", (1 << 20) + 40); add("XMSSMT-SHA2_20/4_192", 1 << 20); add("XMSSMT-SHA2_20/2_192", 1 << 20); add("XMSS-SHA2_16_192", 1 << 16); for (auto &p : ref::standard()) if (p.th <= 10) add(p.name.c_str(), std::min<uint64_t>(last_index(p) + 1, p.th == 5 ? 33000 : 3000)); }
    v.push_back({"lifetime", {num("ks", 0, 1 << 30)}, life, 1, 1, grown}); v.back().max_shrinks = 3; v.back().hang_s = T ? 3600 : 300;
    v.back().rule = "a key of a standard set signs from index 0 on, number of leaves, one-time signatures and tree nodes of every call against the bound";
    v.push_back({"tall", fab::tall_fields(), fab::tall_sets(T), 3, 3, tall}); v.back().max_shrinks = 8; v.back().hang_s = 300;
    v.back().rule = "subtree heights 16 and 20, traversal state filled in for up to 260 generated indices of one tree (carries between all bits of the leaf number), four signatures from each; non-trivial: more than 3 starts";
    v.push_back({"shapes", {num("ks", 0, 1 << 30), num("g", 4, 6)}, strata(all(T ? 16 : 12)), 1, 1, whole}); v.back().max_shrinks = 10;
    v.back().rule = "the same over the complete lifetime of every legal (height, layers, k) up to the height bound, and the refusal afterwards";
    std::vector<Field> jf = cat(index_fields(), {num("ks", 0, T ? 1 << 30 : 3), num("cnt", {{3, 2, 12}, {1, 30, 90}}), num("lv", {{1, 0, 0}, {6, 1, 12}}), num("bk", 0, 1 << 20)});
    v.push_back({"jump", jf, pick([](const ref::P &p) { return p.th <= 10; }), T ? 400 : 25, T ? 10 : 5, jump}); v.back().max_shrinks = 60;
    v.back().rule = "standard set, traversal state filled in for a generated index (mostly shortly before the end of a tree of some layer); non-trivial: more than 3 signatures or the end of a tree";
    v.push_back({"jump-shapes", cat(jf, {num("g", 0, 6)}), strata({{2, 20, 0}, {2, 31, 0}, {3, 15, 1}, {3, 20, 0}, {4, 15, 2}, {5, 12, 3}, {6, 10, 2}, {7, 9, 5}, {8, 7, 4}, {9, 7, 3}, {11, 5, 1}, {12, 5, 4}, {8, 4, 6}, {6, 6, 4}, {5, 12, 1}, {4, 12, 0}}), T ? 400 : 25, T ? 10 : 5, jump}); v.back().max_shrinks = 60;
    v.back().rule = "the same for shapes with many layers and all kinds of k";
    v.push_back({"plain", cat(index_fields(), {num("ks", 0, 1 << 30)}), pick([&](const ref::P &p) { return p.th <= (T ? 16u : 10u); }), T ? 10 : 2, 1, plain}); v.back().max_shrinks = 20;
    v.back().rule = "plain signer at generated indices";
    std::vector<Fixed> os; for (int f = 0; f < 2; f++) for (auto z : pick([](const ref::P &) { return true; })) { z["fast"] = f; os.push_back(z); }
    v.push_back({"open", cat(index_fields(), {seed("cs"), num("ks", 0, 0), num("kind", {{2, 3, 4}, {1, 0, 2}})}), os, T ? 200 : 12, T ? 20 : 6, opens}); v.back().max_shrinks = 60;
    v.back().rule = "verification of synthesised, damaged, arbitrary and short signed messages";
    std::vector<S> rs = {{2, 1, 0}, {4, 1, 2}, {2, 2, 0}, {3, 2, 1}, {2, 4, 0}, {4, 2, 2}, {3, 3, 0}}; std::vector<Fixed> rf; for (auto z : strata(rs)) for (int f = 0; f < 2; f++) { z["fast"] = f; rf.push_back(z); }
    v.push_back({"real-shapes", cat(index_fields(), {num("ks", 0, 1 << 30), num("wi", 0, 2), num("g", {{3, 0, 0}, {1, 1, 6}}), num("cnt", 10, 40)}), rf, T ? 10 : 2, 1, real}); v.back().max_shrinks = 10;
    v.back().rule = "real hashing: hash computations per key generation, signature and verification for small shapes, w=4,16,256";
    v.push_back({"real", cat(index_fields(), {num("ks", 0, 1 << 30), num("cnt", 2, 6)}), pick([&](const ref::P &p) { return (p.th == 5 || (T && p.th == 10)) && (T || p.n < 64); }, {0, 1}), 1, 1, real}); v.back().max_shrinks = 3;
    v.back().rule = "the same for standard sets";
    more_real(v, 6);
    return v;
}
