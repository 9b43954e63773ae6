// C01: what a key signs verifies under its public key and gives back the exact message.
#include "fab.hpp"
#include <cstring>
using namespace eng; using namespace lib; using namespace shapes;

static bool mocks() { return get("mockfast").mock_ok && get("mockbasic").mock_ok; }
// verifies sm with one build; the output buffer is as long as the signed message and starts with given contents
static void verify(const Api &v, const Buf &sm, const Buf &m, const u8 *pk, uint64_t i, int fill, const char *who) {
    Buf o(sm.size(), (u8)fill); ull ml = 0xabcdef;
    int r = v.open(o.data(), &ml, sm.data(), sm.size(), pk);
    if (r) fail("%s: %s: verification of signature %llu returns %d", pname(v.p), who, (ull)i, r);
    if (ml != m.size()) fail("%s: %s: signature %llu: message length %llu instead of %zu", pname(v.p), who, (ull)i, ml, m.size());
    if (m.size() && memcmp(o.data(), m.data(), m.size())) fail("%s: %s: signature %llu verifies but the message returned is another one", pname(v.p), who, (ull)i);
}
static Buf sign(const Api &a, u8 *sk, const Buf &m, uint64_t i) {
    Buf sm(a.sig + m.size(), 0x77); ull n = 0;
    int r = a.sign(sk, sm.data(), &n, m.data(), m.size());
    if (r) fail("%s: signing returns %d at index %llu", pname(a.p), r, (ull)i);
    if (n != sm.size()) fail("%s: signature %llu: length %llu instead of %zu + %zu", pname(a.p), (ull)i, n, a.sig, m.size());
    if (m.size() && memcmp(&sm[a.sig], m.data(), m.size())) fail("%s: signature %llu does not end in the message", pname(a.p), (ull)i);
    return sm;
}
// a library-made key signs from index 0 on; signatures around subtree ends and every c["every"]-th one are verified with
// this build, the other build, or both
static void history(const Api &a, const Api &other, const Case &c, Ctx &x, uint64_t upto, uint64_t every) {
    KeyPair kp = make_key(a, c["ks"]); const ref::P &p = a.p; Bytes b(mix(c["ks"], 99));
    uint64_t total = std::min<uint64_t>(last_index(p) + 1, upto), checked = 0;
    for (uint64_t i = 0; i < total; i++) {
        Buf m = b.get(b.below(8) ? b.below(64) : b.below(700));
        Buf sm = sign(a, kp.sk.data(), m, i);
        bool edge = i < 4 || i + 4 > total || crossings(p, i) || (i && crossings(p, i - 1)) || (i > 1 && crossings(p, i - 2));
        if (edge || i % every == 0) { checked++; verify(i & 1 ? other : a, sm, m, kp.pk.data(), i, (int)(i & 0xff), "other or same build"); if (edge && crossings(p, i) > 1) verify(i & 1 ? a : other, sm, m, kp.pk.data(), i, 0, "both builds"); }
        if (crossings(p, i)) x.label("subtree ends, layer " + std::to_string(crossings(p, i) - 1));
    }
    x.label("signatures", total); x.label("verified", checked); if (total == last_index(p) + 1) x.label("complete lifetimes");
    x.nontrivial = true; x.sample = std::string(pname(p)) + " signatures=" + std::to_string(total);
}
static void two(const Case &c, Api *a, Api *o, const ref::P &p, bool mock) {
    std::string pre = mock ? "mock" : ""; bool fast = c["fast"];
    *a = api(get(pre + (fast ? "fast" : "basic")), p); *o = api(get(pre + (fast ? "basic" : "fast")), p);
}
static void lifetime(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a, o; two(c, &a, &o, ref::standard()[c["ps"]], true); history(a, o, c, x, c["upto"], c["every"]);
}
static void shape(const Case &c, Ctx &x) {
    bool mock = c["mock"]; if (mock && !mocks()) { x.skipped = true; return; }
    ref::P p = params(c, c["g"]); Api a, o; two(c, &a, &o, p, mock); history(a, o, c, x, 1 << 30, c["every"]);
}
static void real_oid(const Case &c, Ctx &x) { Api a, o; two(c, &a, &o, ref::standard()[c["ps"]], false); history(a, o, c, x, c["fast"] ? c["upto"] : 2, 3); }
// either signer at any index of a standard key (the fast one with its traversal state filled in, four signatures)
static void at_index(const Case &c, Ctx &x) {
    bool mock = c["mock"], fast = c["fast"]; if (mock && !mocks()) { x.skipped = true; return; }
    const ref::P &q = ref::standard()[c["ps"]]; std::string pre = mock ? "mock" : "";
    Api a = api(get(pre + (fast ? "fast" : "basic")), q), o = api(get(pre + (fast ? "basic" : "fast")), q); const ref::P &p = a.p;
    if (fast && !fab::usable(*a.L)) { x.skipped = true; return; }
    ref::Key &k = cached_key(p, c["ks"]); uint64_t idx = pick_index(p, c); Buf m = message(c);
    KeyPair kp = fast ? fab::key(a, k, idx) : plain_key(a, k, idx);
    for (unsigned s = 0; s < (fast ? 4 : 1) && idx <= last_index(p); s++, idx++) {
        Buf sm = sign(a, kp.sk.data(), m, idx);
        verify(a, sm, m, kp.pk.data(), idx, 0xff, "same build"); verify(o, sm, m, kp.pk.data(), idx, 0, "other build");
    }
    idx = pick_index(p, c); x.label(fast ? "fast signer" : "plain signer"); x.nontrivial = idx > 0 && !m.empty(); x.label("crossings " + std::to_string(crossings(p, idx))); if (idx >> 32) x.label("index above 32 bits");
    x.label(m.size() < 64 ? "short message" : m.size() < 2000 ? "medium message" : "long message");
    x.sample = std::string(pname(p)) + " idx=" + std::to_string(idx) + " mlen=" + std::to_string(m.size());
}
// many starts inside one tall tree
static void tall(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a = api(get("mockfast"), ref::standard()[c["ps"]]), o = api(get("mockbasic"), ref::standard()[c["ps"]]); const ref::P &p = a.p;
    if (!fab::usable(*a.L)) { x.skipped = true; return; }
    ref::Key &k = cached_key(p, c["ks"]); Bytes b(mix(c["tt"], 7));
    for (uint64_t start : fab::tall_starts(p, c)) {
        KeyPair kp = fab::key(a, k, start); uint64_t idx = start;
        for (unsigned s = 0; s < 4 && idx <= last_index(p); s++, idx++) {
            Buf m = b.get(b.below(60)), sm = sign(a, kp.sk.data(), m, idx); x.label("signatures");
            verify(s & 1 ? a : o, sm, m, kp.pk.data(), idx, 0, s & 1 ? "same build" : "other build");
        }
    }
    uint64_t starts = c.lst("st").size() + (uint64_t)c["more"]; x.nontrivial = starts > 3; x.sample = std::string(pname(p)) + " starts=" + std::to_string(starts);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, const char *k, int64_t x) { for (auto &e : f) e[k] = x; return f; };
    std::vector<Fixed> life;
    auto add = [&](const std::string &name, int64_t upto, int64_t every) { for (auto &f : pick([&](const ref::P &p) { return p.name == name; }, {1})) { auto g = f; g["upto"] = upto; g["every"] = every; life.push_back(g); } };
    for (auto &p : ref::standard()) {
        if (T) add(p.name, p.th == 20 && p.n > 24 ? 3000 : (1 << 20) + 20000, 37);
        else if (p.name == "XMSSMT-SHA2_40/8_192") add(p.name, (1 << 20) + 100, 4096);
        else if (p.h == 16) add(p.name, p.n == 24 && p.func == 0 ? 1 << 16 : 3000, 61);
        else if (p.th <= 10) add(p.name, p.h == 10 ? 1024 : p.n == 24 ? 34000 : 1200, 61);
    }
    std::stable_sort(life.begin(), life.end(), [](const Fixed &a, const Fixed &b) { return a.at("upto") > b.at("upto"); });
    v.push_back({"lifetime", {num("ks", 0, 1 << 30)}, life, 1, 1, lifetime}); v.back().max_shrinks = 2; v.back().hang_s = T ? 3600 : 300;
    v.back().rule = "standard set, key made by the fast signer, signs from index 0 on (cheap one-time functions); signatures around every subtree end and a regular sample are verified with both builds";
    v.push_back({"tall", fab::tall_fields(), fab::tall_sets(T), 3, 3, tall}); v.back().max_shrinks = 8; v.back().hang_s = 300;
    v.back().rule = "subtree heights 16 and 20, fast signer placed at up to 260 generated indices of one tree (carries between all bits of the leaf number): four signatures from each verify; non-trivial: more than 3 starts";
    v.push_back({"shapes", {num("ks", 0, 1 << 30), num("g", 0, 6)}, with(with(with(strata(all(T ? 14 : 10)), "mock", 1), "fast", 1), "every", T ? 1 : 3), T ? 3 : 1, 1, shape}); v.back().max_shrinks = 6;
    v.back().rule = "complete lifetime of every legal (height, layers, k) up to the height bound, verified with both builds";
    v.push_back({"at-index", cat(cat(index_fields(), message_fields(T ? 2000000 : 100000)), {num("ks", 0, 1)}), with(pick([](const ref::P &p) { return p.th <= 10; }, {0, 1}), "mock", 1), T ? 200 : 12, 6, at_index});
    v.back().rule = "either signer at a generated index (fast: four signatures from there), message up to 100 kB (2 MB); non-trivial: index > 0, message not empty";
    v.push_back({"at-index-high", cat(cat(index_fields(), message_fields(3000)), {num("ks", 0, 0)}), with(pick([&](const ref::P &p) { return p.th == 16 || (p.th == 20 && (T || (p.n == 24 && p.func == 0 && p.d == 1))); }, {0, 1}), "mock", 1), T ? 3 : 1, 1, at_index});
    v.back().rule = "the same for subtree heights 16 and 20";
    std::vector<Fixed> rs; for (S s : {S{2, 1, 0}, S{4, 1, 2}, S{5, 1, 1}, S{2, 2, 0}, S{3, 2, 1}, S{2, 3, 0}, S{4, 2, 2}}) for (int wi = 0; wi < 3; wi++) for (int fast = 0; fast < 2; fast++) if (fast || s.k == 0) rs.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"wi", wi}, {"fast", fast}, {"mock", 0}, {"every", T ? 1 : 8}});
    v.push_back({"real-shapes", {num("ks", 0, 1 << 30), num("g", {{3, 0, 0}, {1, 1, 6}})}, rs, T ? 8 : 1, 1, shape}); v.back().max_shrinks = 8;
    v.back().rule = "real hashing, w=4,16,256: complete lifetimes of small shapes with both signers, verified with both builds";
    auto ro = pick([&](const ref::P &p) { return p.th == 5 && (T || p.n < 64 || p.d < 12); }, {0, 1});
    v.push_back({"real-oid", {num("ks", 0, 1 << 30), num("upto", {{3, 1, 6}, {T ? 3 : 0, 30, 40}})}, ro, T ? 3 : 1, 1, real_oid}); v.back().max_shrinks = 6;
    v.back().rule = "real hashing: first signatures of standard sets with subtree height 5, both signers, verified with both builds";
    v.push_back({"real-th10", {num("ks", 0, 1 << 30), num("upto", 1, 20)}, pick([&](const ref::P &p) { return p.th == 10 && (T ? p.d == 1 || p.n < 64 : p.d == 1 && p.func == 0 && p.n == 24); }, {1}), 1, 1, real_oid}); v.back().max_shrinks = 1;
    v.back().rule = "real hashing: first signatures of standard sets with subtree height 10, fast signer";
    v.push_back({"real-at-index", cat(cat(index_fields(), message_fields(3000)), {num("ks", 0, 0)}), with(pick([&](const ref::P &p) { return p.th == 5 && (T || p.func == 0) && (T || p.n < 64); }, {0, 1}), "mock", 0), T ? 20 : 1, 1, at_index});
    v.back().rule = "real hashing: either signer at a generated index";
    more_real(v, 4);
    return v;
}
