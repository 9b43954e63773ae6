// C11: key generation turns fresh randomness into a well-formed key pair.
#include "shapes.hpp"
#include <cstring>
using namespace eng; using namespace lib; using namespace shapes;

static size_t find(const Buf &hay, const u8 *s, size_t n) { for (size_t i = 0; i + n <= hay.size(); i++) if (!memcmp(&hay[i], s, n)) return i; return ~(size_t)0; }
static KeyPair gen(const Api &a, uint64_t seed, const Buf *fixed, Bytes b, int fill) {
    KeyPair k; k.pk.assign(a.pk, (u8)fill); k.sk.assign(a.sk, (u8)fill);
    if (fill < 0) { b.fill(k.pk.data(), a.pk); b.fill(k.sk.data(), a.sk); }
    if (fixed) Rng::fixed(*fixed); else Rng::seed(seed);
    int r = a.keypair(k.pk.data(), k.sk.data()); if (r) fail("%s: key generation returns %d", pname(a.p), r);
    return k;
}
static void wellformed(const Api &a, const KeyPair &k, bool root) {
    const ref::P &p = a.p; unsigned n = p.n; const u8 *sk = k.sk.data(), *pk = k.pk.data();
    if (a.oid) { if (ref::to_int(pk, 4) != p.oid) fail("%s: the public key starts with %s", pname(p), hex(pk, 4).c_str()); if (ref::to_int(sk, 4) != p.oid) fail("%s: the secret key starts with %s", pname(p), hex(sk, 4).c_str()); }
    if (a.index(sk) != 0) fail("%s: a new key holds index %llu", pname(p), (ull)a.index(sk));
    const u8 *s = sk + a.off + p.idxb, *q = pk + a.off;
    if (memcmp(s + 2 * n, q, n)) fail("%s: the roots in the public and the secret key differ", pname(p));
    if (memcmp(s + 3 * n, q + n, n)) fail("%s: the public seeds in the two keys differ", pname(p));
    if (root) { ref::Key m = model_of(a, sk); if (memcmp(m.compute_root().data(), q, n)) fail("%s: the root in the key is not that of its seeds", pname(p)); }
}
static void seeds(const Api &a, const KeyPair &k) {
    const ref::P &p = a.p; unsigned n = p.n; const u8 *s = k.sk.data() + a.off + p.idxb; const Buf &d = Rng::drawn();
    const char *nm[3] = {"secret seed", "PRF key", "public seed"}; size_t at[3]; const u8 *v[3] = {s, s + n, s + 3 * n};
    for (int i = 0; i < 3; i++) { at[i] = find(d, v[i], n); if (at[i] == ~(size_t)0) fail("%s: the %s is not %u bytes of the randomness drawn (%zu bytes drawn)", pname(p), nm[i], n, d.size()); }
    for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) if (at[i] < at[j] + n && at[j] < at[i] + n) fail("%s: %s and %s use the same random bytes", pname(p), nm[i], nm[j]);
}
static bool mocks() { return get("mockfast").mock_ok && get("mockbasic").mock_ok; }
static Api pick_api(const Case &c, bool oid) {
    std::string fl = std::string(c["mock"] ? "mock" : "") + (c["fast"] ? "fast" : "basic"); return api(get(fl), oid ? ref::standard()[c["ps"]] : params(c, c["g"]));
}
static void one(const Api &a, const Case &c, Ctx &x) {
    Bytes b(c["s"]); const ref::P &p = a.p;
    KeyPair k = gen(a, c["s"], nullptr, b, (int)c["fill"]); Buf drawn = Rng::drawn();
    wellformed(a, k, c["root"]); seeds(a, k);
    x.nontrivial = true; x.sample = std::string(pname(p)) + " drawn=" + std::to_string(drawn.size()); x.label("draws " + std::to_string(Rng::calls().size()));
    if (!c["again"]) return;
    // same randomness, other earlier contents of the buffers and other calls in between: the same pair
    if (c["again"] == 2) { Api o = custom(*a.L, ref::make(p.func, p.n, p.w, 4, 2)); (void)gen(o, 77, nullptr, b, 0x3c); }
    KeyPair k2 = gen(a, 0, &drawn, Bytes(c["s"] + 1), (int)c["fill"] < 0 ? 0 : c["fill"] == 0x5a ? -1 : 0xff);
    size_t cmp = a.L->fast ? a.off + p.idxb + 4 * p.n : a.sk;
    if (k2.pk != k.pk) fail("%s: the public key depends on more than the randomness", pname(p));
    if (memcmp(k.sk.data(), k2.sk.data(), cmp)) fail("%s: the secret key depends on more than the randomness", pname(p));
    if (k.sk != k2.sk) { size_t i = 0; while (k.sk[i] == k2.sk[i]) i++; fail("%s: byte %zu of the secret key's state depends on what the buffer held before", pname(p), i); }
    // other randomness: other keys
    KeyPair k3 = gen(a, c["s"] + 1, nullptr, b, 0); const u8 *s = k.sk.data() + a.off + p.idxb, *t = k3.sk.data() + a.off + p.idxb; unsigned n = p.n;
    for (int i = 0; i < 4; i++) if (!memcmp(s + i * n, t + i * n, n)) fail("%s: part %d of the key is the same for other randomness", pname(p), i);
    x.label("generated again");
}
static void oid(const Case &c, Ctx &x) { if (c["mock"] && !mocks()) { x.skipped = true; return; } one(pick_api(c, true), c, x); }
static void shape(const Case &c, Ctx &x) { if (c["mock"] && !mocks()) { x.skipped = true; return; } one(pick_api(c, false), c, x); }
// every bit of the randomness used matters in exactly one of the seeds
static void bits(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a = pick_api(c, true); const ref::P &p = a.p; unsigned n = p.n; Bytes b(c["s"]);
    KeyPair k = gen(a, c["s"], nullptr, b, 0x5a); Buf d = Rng::drawn(); std::vector<int> hit(3 * n, 0);
    for (size_t i = 0; i < d.size(); i++) {
        Buf e = d; e[i] ^= 1 << b.below(8); KeyPair q = gen(a, 0, &e, b, 0x5a); const u8 *s = k.sk.data() + a.off + p.idxb, *t = q.sk.data() + a.off + p.idxb; unsigned ch = 0;
        for (unsigned j = 0; j < 4 * n; j++) if (j / n != 2 && s[j] != t[j]) { ch++; hit[(j / n == 3 ? 2 : j / n) * n + j % n]++; }
        if (ch > 1) fail("%s: random byte %zu goes into %u bytes of the seeds", pname(p), i, ch);
        x.label("random bytes");
    }
    for (unsigned j = 0; j < 3 * n; j++) if (hit[j] != 1) fail("%s: byte %u of seed %u takes part of %d random bytes", pname(p), j % n, j / n, hit[j]);
    x.nontrivial = true; x.sample = pname(p);
}
static void unknown(const Case &c, Ctx &x) {
    const Lib &L = get(c["fast"] ? "fast" : "basic"); bool mt = c["mt"]; uint32_t id = (uint32_t)c["id"];
    if (id >= 1 && id <= (mt ? 56u : 21u)) { id += 56; }
    Buf pk(4 + 128), sk(300000); int r = (mt ? L.xmssmt_keypair : L.xmss_keypair)(pk.data(), sk.data(), id);
    if (!r) fail("%s key generation accepts the unknown identifier 0x%08x", mt ? "XMSSMT" : "XMSS", id);
    x.nontrivial = true;
}
// generation from given seeds (plain signer)
static void from_seed(const Case &c, Ctx &x) {
    const Lib &L = get("mockbasic"); if (!mocks() || !L.core_seed_keypair) { x.skipped = true; return; }
    Api a = custom(L, ref::standard()[c["ps"]]); const ref::P &p = a.p; Bytes b(c["s"]); Buf sd = b.get(3 * p.n), keep = sd; KeyPair k; k.pk.assign(a.pk, (u8)c["fill"]); k.sk.assign(a.sk, (u8)c["fill"]);
    int r = L.core_seed_keypair(&a.prm, k.pk.data(), k.sk.data(), sd.data()); if (r) fail("%s: key generation from a seed returns %d", pname(p), r);
    wellformed(a, k, true); const u8 *s = k.sk.data() + p.idxb; unsigned n = p.n;
    if (sd != keep) fail("%s: the given seed is changed", pname(p));
    size_t i = find(sd, s, n), j = find(sd, s + n, n), l = find(sd, s + 3 * n, n);
    if (i == ~(size_t)0 || j == ~(size_t)0 || l == ~(size_t)0 || i % n || j % n || l % n || i == j || j == l || i == l) fail("%s: the seeds in the key are not the three given ones", pname(p));
    x.nontrivial = true; x.sample = pname(p);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, const char *k, int64_t x) { for (auto &e : f) e[k] = x; return f; };
    auto both = [](std::vector<Fixed> f) { std::vector<Fixed> r; for (auto &e : f) for (int fast = 0; fast < 2; fast++) { auto g = e; g["fast"] = fast; r.push_back(g); } return r; };
    Field fill = num("fill", {{1, 0x5a, 0x5a}, {1, -1, -1}, {1, 0, 255}}), again = num("again", {{1, 1, 2}});
    auto high = with(with(with(pick([&](const ref::P &p) { return p.th == 16 || (p.th == 20 && (T || (p.n == 24 && p.d == 1))); }, {0, 1}), "mock", 1), "again", 0), "root", 0);
    for (auto &f : high) if (ref::standard()[f["ps"]].th == 16 && ref::standard()[f["ps"]].n < 64) { f["again"] = 1; f["root"] = 1; }
    v.push_back({"mock-high", {num("s", 0, 1 << 30), fill}, high, 1, 1, oid}); v.back().max_shrinks = 2; v.back().hang_s = 300;
    v.back().rule = "standard sets with tree heights 16 and 20 (cheap one-time functions)";
    v.push_back({"mock-oid", {num("s", 0, 1 << 30), fill, again}, with(with(pick([](const ref::P &p) { return p.th <= 10; }, {0, 1}), "mock", 1), "root", 1), T ? 40 : 4, 2, oid}); v.back().max_shrinks = 20;
    v.back().rule = "standard sets: layout, root of the seeds, seeds as disjoint full-length parts of the randomness, and a second generation with the same randomness into buffers with other contents";
    v.push_back({"mock-shape", {num("s", 0, 1 << 30), num("g", 0, 6), fill, again}, both(with(with(strata(all(12)), "mock", 1), "root", 1)), T ? 20 : 2, 2, shape}); v.back().max_shrinks = 20;
    v.back().rule = "the same for custom shapes and traversal parameters";
    v.push_back({"bits", {num("s", 0, 1 << 30)}, with(pick([&](const ref::P &p) { return (p.th == 5 && p.h == 20) || (p.h == 10 && (T || p.n == 24)); }, {0, 1}), "mock", 1), 1, 1, bits}); v.back().max_shrinks = 3;
    v.back().rule = "each random byte in turn is changed: it must show in exactly one byte of one seed";
    v.push_back({"real-oid", {num("s", 0, 1 << 30), fill, num("again", 0, 2)}, with(with(pick([&](const ref::P &p) { return p.th == 5 && (T || p.d == 4); }, {0, 1}), "mock", 0), "root", 1), T ? 2 : 1, 1, oid}); v.back().max_shrinks = 4;
    v.back().rule = "the same with real hashing";
    v.push_back({"unknown", {num("id", {{1, 0, 300}, {1, 0, 0xffffffffLL}}), num("mt", 0, 1), num("fast", 0, 1)}, {}, T ? 100000 : 10000, 500, unknown}); v.back().rule = "unknown identifiers are refused";
    v.push_back({"from-seed", {num("s", 0, 1 << 30), num("fill", 0, 255)}, pick([](const ref::P &p) { return p.th <= 10; }), T ? 20 : 2, 2, from_seed}); v.back().max_shrinks = 10;
    v.back().rule = "generation from given seeds";
    return v;
}
