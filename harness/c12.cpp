// C12: valid calls touch only the documented buffers and leave their inputs alone.
// Plain builds run between inaccessible pages with read-only inputs; "asan*" builds are instrumented (own working storage).
#include "shapes.hpp"
#include <cstring>
#include <map>
#include <memory>
using namespace eng; using namespace lib; using namespace shapes;

static bool usable(const Lib &L) { return !L.mock || L.mock_ok; }
static const char *flav(const Case &c) { static const char *f[] = {"asanbasic", "asanfast", "basic", "fast", "asanmockbasic", "asanmockfast", "mockbasic", "mockfast"}; return f[c["fl"]]; }
// One buffer of exactly the announced size; inaccessible pages on one side and a pattern on the other, or an exact heap block.
struct Area {
    bool heap; u8 *p; size_t n; std::unique_ptr<Guard> g; const char *name; Buf kept;
    Area(const char *nm, size_t n_, bool asan, bool front, int fill) : heap(asan), n(n_), name(nm) {
        if (heap) { p = new u8[n]; memset(p, fill, n); } else { g = std::make_unique<Guard>(n, front, fill); p = g->p; }
    }
    ~Area() { if (heap) delete[] p; }
    Area(const Area &) = delete;
    void input(const Buf &b) { if (!b.empty()) memcpy(p, b.data(), b.size()); kept = b; if (g) g->readonly(true); }
    void check(const Api &a, const char *op) const {
        if (g && !g->slack_ok()) fail("%s: %s changes bytes next to the %s", pname(a.p), op, name);
        if (!kept.empty() && memcmp(p, kept.data(), kept.size())) fail("%s: %s changes its input %s", pname(a.p), op, name);
    }
};
struct Key { Buf pk, sk; };
static Key keygen(const Api &a, uint64_t seed, int fr, int fill, bool asan) {
    Area pk("public key", a.pk, asan, fr & 1, fill), sk("secret key", a.sk, asan, fr & 2, ~fill & 0xff);
    Rng::seed(seed); int r = 0;
    if (!guarded([&] { r = a.keypair(pk.p, sk.p); })) fail("%s: key generation reaches outside its buffers", pname(a.p));
    if (r) fail("%s: key generation returns %d", pname(a.p), r);
    pk.check(a, "key generation"); sk.check(a, "key generation");
    return {Buf(pk.p, pk.p + a.pk), Buf(sk.p, sk.p + a.sk)};
}
static int sign(const Api &a, Key &k, const Buf &m, Buf &out, int fr, int fill, bool asan) {
    Area sk("secret key", a.sk, asan, fr & 1, 0), sm("signature buffer", a.sig + m.size(), asan, fr & 2, fill), msg("message", m.size(), asan, fr & 4, 0), ln("signature length", sizeof(ull), asan, fr & 8, 0x33);
    memcpy(sk.p, k.sk.data(), a.sk); msg.input(m); int r = 0;
    ull *lp = fr & 8 || asan ? (ull *)ln.p : (ull *)ln.p;
    if (!guarded([&] { r = a.sign(sk.p, sm.p, lp, msg.p, m.size()); })) fail("%s: signing %zu bytes at index %llu reaches outside its buffers or writes to the message", pname(a.p), m.size(), (ull)a.index(k.sk.data()));
    const char *op = r ? "refused signing" : "signing";
    sk.check(a, op); sm.check(a, op); msg.check(a, op); ln.check(a, op);
    if (!r && *lp != a.sig + m.size()) fail("%s: signing reports %llu bytes, the buffer holds %zu", pname(a.p), *lp, a.sig + m.size());
    k.sk.assign(sk.p, sk.p + a.sk); out.assign(sm.p, sm.p + a.sig + m.size());
    return r;
}
static int open(const Api &a, const Buf &pk_, const Buf &s, int fr, int fill, bool asan) {
    Area pk("public key", a.pk, asan, fr & 1, 0), sm("signed message", s.size(), asan, fr & 2, 0), m("message buffer", s.size(), asan, fr & 4, fill), ln("message length", sizeof(ull), asan, fr & 8, 0x44);
    pk.input(pk_); sm.input(s); int r = 0;
    if (!guarded([&] { r = a.open(m.p, (ull *)ln.p, sm.p, s.size(), pk.p); })) fail("%s: verification of %zu bytes reaches outside its buffers or writes to its inputs", pname(a.p), s.size());
    pk.check(a, "verification"); sm.check(a, "verification"); m.check(a, "verification"); ln.check(a, "verification");
    return r;
}
// keys are cached per worker; the cached one is the state right after key generation
static Key cached(const Api &a, uint64_t seed, const Case &c, bool asan) {
    static std::map<std::string, Key> cache; char id[256]; snprintf(id, sizeof id, "%s/%s/%d/%llu", a.L->name.c_str(), pname(a.p), a.p.mock, (ull)seed);
    auto it = cache.find(id); if (it != cache.end()) return it->second;
    if (cache.size() > 60) cache.clear();
    return cache[id] = keygen(a, seed, (int)(c["fr"] & 3), (int)(c["fr"] >> 4), asan);
}
static void history(const Case &c, Ctx &x) {
    const Lib &L = get(flav(c)); if (!usable(L)) { x.skipped = true; return; }
    bool asan = L.name.rfind("asan", 0) == 0; Api a = c.v.count("ps") ? api(L, ref::standard()[c["ps"]]) : custom(L, params(c, c["g"])); const ref::P &p = a.p;
    Key k = cached(a, c["ks"], c, asan); Bytes b(c["cs"]);
    if (!L.fast) a.set_index(k.sk.data(), pick_index(p, c));     // the plain signer has no other state
    Buf sm; bool have = false; unsigned crossed = 0;
    for (int64_t o : c.lst("ops")) {
        int fr = (int)(o >> 3 & 15), fill = (int)(o >> 7 & 255); int64_t lv = o >> 15; size_t ml = lv & 1 ? lv / 2 % 40 : lv / 2 % 1500;
        if (lv % 7 == 0) ml = 0;
        int kind = o & 7;
        if (kind <= 3 || !have) {
            Buf m = b.get(ml), s; uint64_t idx = a.index(k.sk.data());
            int r = sign(a, k, m, s, fr, fill, asan); x.label(r ? "refused" : m.empty() ? "signed, empty message" : "signed");
            if (!r) { sm = s; have = true; if (p.d > 1 && crossings(p, idx)) { crossed++; x.label("tree boundary"); } }
        } else if (kind <= 5) { if (open(a, k.pk, sm, fr, fill, asan)) x.label("rejected"); else x.label("accepted"); }
        else {
            Buf t = sm; size_t pos = b.below(4) ? b.below(t.size()) : b.below(p.idxb + p.n); t[pos] ^= 1 << b.below(8); if (kind == 7) { Buf more = b.get(1 + b.below(60)); t.insert(t.end(), more.begin(), more.end()); }
            (void)open(a, k.pk, t, fr, fill, asan); x.label("altered input");
        }
    }
    x.nontrivial = have; x.sample = std::string(L.name) + " " + pname(p) + " " + std::to_string(c.lst("ops").size()) + " operations";
}
// all signatures of a key's life, and beyond
static void life(const Case &c, Ctx &x) {
    const Lib &L = get(flav(c)); if (!usable(L)) { x.skipped = true; return; }
    bool asan = L.name.rfind("asan", 0) == 0; Api a = custom(L, params(c, c["g"])); const ref::P &p = a.p; Bytes b(c["cs"]);
    int fr0 = (int)c["fr"]; Key k = keygen(a, c["ks"], fr0 & 3, fr0 >> 4, asan); uint64_t n = last_index(p) + 1; if (c.v.count("past")) n = std::min<uint64_t>(n, (1ULL << p.th) * c["past"] + 3); Buf sm;
    for (uint64_t i = 0; i < n + 2; i++) {
        int fr = (int)b.below(16), fill = (int)b.below(256); Buf m = b.get(b.below(3) ? b.below(40) : 0);
        int r = sign(a, k, m, sm, fr, fill, asan);
        if (!r && b.below(8) == 0) (void)open(a, k.pk, sm, (int)b.below(16), fill, asan);
        x.label(r ? "refused" : "signed");
    }
    x.nontrivial = true; x.sample = std::string(L.name) + " " + pname(p) + " " + std::to_string(n) + " signatures";
}
// key generation of every set, real-size
static void keys(const Case &c, Ctx &x) {
    const Lib &L = get(flav(c)); if (!usable(L)) { x.skipped = true; return; }
    bool asan = L.name.rfind("asan", 0) == 0; Api a = api(L, ref::standard()[c["ps"]]); Bytes b(c["cs"]); Buf sm, m = b.get(b.below(50));
    Key k = keygen(a, c["ks"], (int)(c["fr"] & 3), (int)(c["fr"] >> 4), asan); int n = c.v.count("n") ? (int)c["n"] : 1;
    for (int i = 0; i < n; i++) { (void)sign(a, k, m, sm, (int)b.below(16), (int)b.below(256), asan); (void)open(a, k.pk, sm, (int)b.below(16), (int)b.below(256), asan); }
    x.nontrivial = true; x.sample = std::string(L.name) + " " + pname(a.p);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, std::vector<int> xs) { std::vector<Fixed> o; for (auto e : f) for (int q : xs) { e["fl"] = q; o.push_back(e); } return o; };
    Field ops = list("ops", 10, {{1, 0, (1LL << 27) - 1}}); Field fr = num("fr", 0, 4095);
    std::vector<Field> hf = cat(index_fields(), {num("ks", 0, 1), seed("cs"), fr, ops});
    auto small = [](const ref::P &p) { return p.th <= 10; };
    // large trees first: they take longest
    v.push_back({"mock-keys-large", {num("ks", 0, 1 << 30), seed("cs"), fr}, with(pick([&](const ref::P &p) { return T ? p.th > 10 : p.th == 16; }), {5, 7}), 1, 1, keys}); v.back().max_shrinks = 4; v.back().hang_s = 600;
    v.back().rule = "key generation, signing and verification with the tall trees (cheap one-time functions), between inaccessible pages";
    v.push_back({"real-asan-sets", {num("ks", 0, 1 << 30), seed("cs"), fr, num("n", 2, 2)}, with(pick([&](const ref::P &p) { return p.th == 5 && (T || p.d == 4); }), {0, 1}), 1, 1, keys}); v.back().max_shrinks = 4; v.back().hang_s = 600;
    v.back().rule = "standard sets with real hashing, instrumented";
    v.push_back({"real-asan-sets-10", {num("ks", 0, 1 << 30), seed("cs"), fr, num("n", 2, 2)}, with(pick([&](const ref::P &p) { return p.h == 10 || (T && p.th == 10); }), {1}), 1, 1, keys}); v.back().max_shrinks = 4; v.back().hang_s = 600;
    v.back().rule = "standard sets with 2^10 leaves, real hashing, fast signer, instrumented";
    v.push_back({"mock-guard", hf, with(pick(small), {6, 7}), T ? 400 : 16, 8, history}); v.back().max_shrinks = 200;
    v.back().rule = "histories of signing and verification calls at generated indices for all sets with th <= 10 (cheap one-time functions), exactly sized buffers between inaccessible pages, inputs read-only; non-trivial: at least one signature";
    v.push_back({"mock-asan", hf, with(pick(small), {4, 5}), T ? 200 : 8, 8, history}); v.back().max_shrinks = 100;
    v.back().rule = "the same, instrumented: own working storage of the library too";
    std::vector<Fixed> cs; for (auto &s : all(T ? 7 : 6)) for (int g = 0; g < 7; g++) if (T || (g + s.th + s.d + s.k) % 3 == 0) cs.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"g", g}});
    v.push_back({"life-mock-asan", {num("ks", 0, 1 << 30), seed("cs"), fr, num("wi", 0, 2)}, with(cs, {4, 5}), T ? 6 : 1, 1, life}); v.back().max_shrinks = 20;
    v.back().rule = "whole lives of custom keys for all legal tree shapes, instrumented, with refused calls at the end";
    v.push_back({"life-mock-guard", {num("ks", 0, 1 << 30), seed("cs"), fr, num("wi", 0, 2)}, with(cs, {6, 7}), T ? 12 : 2, 2, life}); v.back().max_shrinks = 20;
    v.back().rule = "the same between inaccessible pages";
    std::vector<Fixed> ts; for (unsigned th = 4; th <= (T ? 10u : 8u); th++) for (unsigned d = 1; d <= 3; d++) for (unsigned k = 0; k <= th; k++) if (legal(th, d, k) && (k > 2 || d == 2)) for (int fl : {5, 7}) ts.push_back({{"th", th}, {"d", d}, {"k", k}, {"fl", fl}, {"past", T ? 2 : 1}});
    v.push_back({"trees-mock", {num("ks", 0, 1 << 30), seed("cs"), fr, num("g", 0, 6), num("wi", 0, 2)}, ts, T ? 4 : 1, 1, life}); v.back().max_shrinks = 10;
    v.back().rule = "keys with higher trees and large traversal parameters k, fast signer, past the end of the first trees, instrumented and between inaccessible pages";
    std::vector<Fixed> rs; for (auto &s : all(T ? 5 : 4)) for (int g = 0; g < 7; g++) for (int wi = 0; wi < 3; wi++) if (T || ((g + s.th + 2 * s.d + s.k + wi) % 4 == 0 && (wi < 2 || s.th * s.d < 4))) rs.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"g", g}, {"wi", wi}});
    v.push_back({"life-real-asan", {num("ks", 0, 1 << 30), seed("cs"), fr}, with(rs, {0, 1}), 1, 1, life}); v.back().max_shrinks = 6;
    v.back().rule = "whole lives of small custom keys with real hashing, w=4,16,256, instrumented";
    return v;
}
