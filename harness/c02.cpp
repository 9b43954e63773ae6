// C02: verification accepts exactly the valid signatures and zeroes rejected output.
#include "shapes.hpp"
#include "synth.hpp"
#include <cstring>
#include <map>
#include <memory>
using namespace eng; using namespace lib; using namespace shapes;
using synth::Synth;

// What the standard says about this input, then what the library says.
static bool valid(const Api &a, const Buf &sm, const Buf &pk) {
    const ref::P *q = &a.p; ref::P other;
    if (a.oid) { uint32_t id = (uint32_t)ref::to_int(pk.data(), 4); const ref::P *s = ref::by_oid(a.family, id); if (!s) return false; other = *s; other.mock = a.p.mock; q = &other; }
    if (sm.size() < q->sigb || pk.size() < a.off + 2 * q->n) return false;
    if (ref::to_int(sm.data(), q->idxb) >> q->h) return false;
    const u8 *r = pk.data() + a.off;
    return !memcmp(ref::root_from_sig(*q, sm.data(), r, r + q->n, sm.data() + q->sigb, sm.size() - q->sigb).data(), r, q->n);
}
static void check(const Api &a, const Buf &sm, const Buf &pk, bool want, const char *what, int fill = 0xA7) {
    Buf o(sm.size() + 1, (u8)fill); ull ml = 0x5555;
    int r = a.open(o.data(), &ml, sm.data(), sm.size(), pk.data());
    size_t sig = a.sig;
    if (a.oid) { const ref::P *s = ref::by_oid(a.family, (uint32_t)ref::to_int(pk.data(), 4)); sig = s ? s->sigb : ~(size_t)0; }
    if (want) {
        if (r) fail("%s: %s: a valid signature is rejected (%d)", pname(a.p), what, r);
        if (ml != sm.size() - sig) fail("%s: %s: accepted with message length %llu instead of %zu", pname(a.p), what, ml, sm.size() - sig);
        if (ml && memcmp(o.data(), &sm[sig], ml)) fail("%s: %s: accepted, but the message returned is another one", pname(a.p), what);
    } else {
        if (!r) fail("%s: %s: accepted", pname(a.p), what);
        if (ml != 0) fail("%s: %s: rejected with message length %llu", pname(a.p), what, ml);
        if (sm.size() > sig) for (size_t i = 0; i < sm.size() - sig; i++) if (o[i]) fail("%s: %s: rejected, but byte %zu of the message area is %02x", pname(a.p), what, i, o[i]);
    }
}
static bool mocks() { return get("mockfast").mock_ok && get("mockbasic").mock_ok; }
static Synth &cached(const ref::P &p, uint64_t idx, uint64_t s) {
    static std::map<std::string, std::unique_ptr<Synth>> c; char k[256];
    snprintf(k, sizeof k, "%s/%d/%llu/%llu", pname(p), p.mock, (ull)idx, (ull)s);
    if (c.size() > 40) c.clear();
    auto &x = c[k]; if (!x) x = std::make_unique<Synth>(p, idx, s); return *x;
}
static const char *part(const ref::P &p, size_t o) {
    if (o < p.idxb) return "index";
    if (o < p.idxb + p.n) return "randomizer";
    if (o >= p.sigb) return "message";
    size_t q = (o - p.idxb - p.n) % ((p.len + p.th) * p.n); return q < p.len * p.n ? "one-time signature" : "authentication path";
}
// One valid signature and a change to it, judged by the model.
static void change(const Case &c, Ctx &x) {
    bool mock = c["mock"]; if (mock && !mocks()) { x.skipped = true; return; }
    std::string pre = mock ? "mock" : ""; const Lib &L = get(pre + (c["ms"] & 1 ? "fast" : "basic"));
    Api a = c.v.count("ps") ? api(L, ref::standard()[c["ps"]]) : custom(L, params(c, c["g"])); const ref::P &p = a.p;
    uint64_t idx = pick_index(p, c); Synth &s = cached(p, idx, mock ? c["ks"] : c["ks"] % 4);
    Bytes b(c["cs"]); Buf m = message(c), R = b.get(p.n);
    Buf sm = s.sign(s.root, R, m), pk = s.pk(a, s.root); bool want = false; std::string what; x.nontrivial = true;
    switch (c["kind"]) {
    case 0: want = true; what = "unchanged"; break;
    case 1: case 2: { size_t o = c["kind"] == 1 ? b.below(sm.size()) : b.below(p.idxb + p.n + 64); if (o >= sm.size()) o = 0; u8 d = 1 << b.below(8); sm[o] ^= d; what = std::string("bit flip in the ") + part(p, o); x.label(part(p, o)); break; }
    case 3: { size_t o = b.below(pk.size() - a.off) + a.off; pk[o] ^= 1 << b.below(8); what = o < a.off + p.n ? "bit flip in the root of the key" : "bit flip in the public seed"; break; }
    case 4: { size_t k = 1 + b.below(3); Buf t = b.get(k); if (b.below(2)) t = odd_bytes(b); if (b.below(8) == 0) t = sm; size_t at = b.below(4) ? sm.size() : b.below(2) ? p.sigb : b.below(sm.size()); sm.insert(sm.begin() + at, t.begin(), t.end()); what = "bytes appended or inserted"; break; }
    case 5: { size_t k = m.empty() ? 1 : 1 + b.below(std::min<size_t>(m.size(), 40)); sm.resize(sm.size() - k); what = "bytes cut off"; break; }
    case 6: {   // the key claims a root that differs slightly from the one the signature leads to
        Buf claim = s.root; size_t o = b.below(4) ? (b.below(2) ? p.n - 1 - b.below(2) : b.below(2)) : b.below(p.n); claim[o] ^= b.below(2) ? 1 << b.below(8) : 0xff;
        sm = s.sign(claim, R, m); pk = s.pk(a, claim); what = "root differs from the key's in byte " + std::to_string(o); break; }
    case 7: {   // index moved by a multiple of the number of leaves of some tree, or beyond the end
        uint64_t i2 = idx; unsigned bit = (unsigned)b.below(8 * p.idxb); i2 ^= 1ULL << bit; if (b.below(3) == 0 && 8 * p.idxb > p.h) i2 = idx + (1ULL << p.h) * (1 + b.below((1ULL << (8 * p.idxb - p.h)) - 1));
        ref::to_bytes(sm.data(), p.idxb, i2); what = "index replaced"; break; }
    case 8: {   // pieces swapped inside the signature
        size_t units = (p.sigb - p.idxb) / p.n, u1 = b.below(units), u2 = b.below(units); u8 *q = &sm[p.idxb];
        for (unsigned i = 0; i < p.n; i++) std::swap(q[u1 * p.n + i], q[u2 * p.n + i]); what = "two nodes swapped"; break; }
    case 9: {   // pieces of another valid signature of the same key material
        Buf m2 = b.get(m.size()), R2 = b.below(2) ? R : b.get(p.n); Buf t = s.sign(s.root, R2, m2);
        size_t cut1 = p.idxb + p.n, cut2 = cut1 + p.len * p.n;
        switch (b.below(3)) { case 0: memcpy(&sm[cut1], &t[cut1], cut2 - cut1); break; case 1: memcpy(&sm[p.idxb], &t[p.idxb], p.n); break; default: if (!m.empty()) memcpy(&sm[p.sigb], &t[p.sigb], m.size()); }
        what = "spliced with another signature"; break; }
    case 10: {  // another parameter set's identifier
        if (!a.oid) { want = true; what = "unchanged"; break; }
        uint32_t id = b.below(4) ? 1 + (uint32_t)b.below(a.family ? 56 : 21) : (uint32_t)b.next(); ref::to_bytes(pk.data(), 4, id); pk.resize(4 + 128); what = "identifier replaced"; break; }
    default: {  // everything random, or constant
        if (b.below(2)) b.fill(sm.data(), sm.size()); else std::fill(sm.begin(), sm.end(), b.below(2) ? 0 : 0xff); what = "arbitrary bytes"; }
    }
    if (!want) want = valid(a, sm, pk);
    if (c["kind"] == 10 && a.oid) { const ref::P *q = ref::by_oid(a.family, (uint32_t)ref::to_int(pk.data(), 4)); if (q && sm.size() < q->sigb) { Buf pad = b.get(q->sigb - sm.size() + b.below(20)); if (b.below(2)) { sm.insert(sm.end(), pad.begin(), pad.end()); want = valid(a, sm, pk); } } }
    x.label(want ? "valid" : "invalid"); x.label("kind " + std::to_string(c["kind"]));
    x.sample = std::string(pname(p)) + " idx=" + std::to_string(idx) + ": " + what;
    check(a, sm, pk, want, what.c_str(), (int)(c["cs"] & 0xff));
}
// every byte of a signed message in turn (one bit each, chosen by the case), and every byte of the key
static void sweep(const Case &c, Ctx &x) {
    bool mock = c["mock"]; if (mock && !mocks()) { x.skipped = true; return; }
    Api a = api(get(mock ? "mockbasic" : "basic"), ref::standard()[c["ps"]]); const ref::P &p = a.p;
    uint64_t idx = pick_index(p, c); Synth s(p, idx, c["ks"]); Bytes b(c["cs"]); Buf m = message(c), R = b.get(p.n);
    Buf sm = s.sign(s.root, R, m), pk = s.pk(a, s.root);
    check(a, sm, pk, true, "unchanged");
    size_t step = c["step"], off = b.below(step);
    for (size_t o = 0; o < sm.size(); o += (o < p.idxb + p.n || o >= p.sigb ? 1 : step)) {
        size_t q = o < p.idxb + p.n || o >= p.sigb ? o : std::min<size_t>(o + off, p.sigb - 1);
        u8 bits = o < p.idxb ? 0xff : 1 << b.below(8);
        for (int t = 0; t < 8; t++) if (bits >> t & 1) { sm[q] ^= 1 << t; check(a, sm, pk, false, (std::string("bit flip in the ") + part(p, q) + " at " + std::to_string(q)).c_str(), 0x11); sm[q] ^= 1 << t; x.label("bit flips"); }
    }
    for (size_t o = a.off; o < pk.size(); o++) { pk[o] ^= 1 << b.below(8); Buf q = s.pk(a, s.root); check(a, sm, pk, false, "bit flip in the key"); pk = q; x.label("bit flips"); }
    // root comparison byte by byte
    for (unsigned o = 0; o < p.n; o++) { Buf cl = s.root; cl[o] ^= 1 << b.below(8); check(a, s.sign(cl, R, m), s.pk(a, cl), false, ("root differs from the key's in byte " + std::to_string(o)).c_str()); x.label("near-miss roots"); }
    x.nontrivial = true; x.sample = std::string(pname(p)) + " idx=" + std::to_string(idx);
}
// real keys: signatures of one key recombined
static void recombine(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); Api a = custom(L, params(c, c["g"])); const ref::P &p = a.p;
    ref::Key &k = cached_key(p, c["ks"]); k.compute_root(); Bytes b(c["cs"]);
    uint64_t n = last_index(p) + 1, i1 = b.below(n), i2 = b.below(3) ? b.below(n) : i1 ^ (1ULL << b.below(p.h)); if (i2 >= n) i2 = 0;
    Buf m1 = b.get(b.below(50)), m2 = b.below(2) ? m1 : b.get(m1.size()); Buf s1 = k.sign(i1, m1.data(), m1.size()), s2 = k.sign(i2, m2.data(), m2.size());
    // fields: index, R, then per layer one-time signature and path; each taken from one of the two
    uint64_t mask = b.next(); Buf sm; size_t o = 0; unsigned f = 0;
    auto take = [&](size_t len) { const Buf &s = mask >> f++ % 60 & 1 ? s1 : s2; sm.insert(sm.end(), s.begin() + o, s.begin() + o + len); o += len; };
    take(p.idxb); take(p.n); for (unsigned l = 0; l < p.d; l++) { take(p.len * p.n); take(p.th * p.n); }
    const Buf &m = mask >> 61 & 1 ? m1 : m2; sm.insert(sm.end(), m.begin(), m.end());
    Buf pk(2 * p.n); memcpy(&pk[0], k.root.data(), p.n); memcpy(&pk[p.n], k.seed.data(), p.n);
    bool want = valid(a, sm, pk); x.label(want ? "valid" : "invalid"); x.nontrivial = i1 != i2 || m1 != m2;
    x.sample = std::string(pname(p)) + " idx " + std::to_string(i1) + "/" + std::to_string(i2);
    check(a, sm, pk, want, "fields of two signatures mixed");
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, const char *k, int64_t x) { for (auto &e : f) e[k] = x; return f; };
    auto any = [](const ref::P &) { return true; };
    Field kind = num("kind", {{2, 0, 0}, {12, 1, 11}});
    v.push_back({"mock-sweep", cat(cat(index_fields(), message_fields(60)), {num("ks", 0, 1 << 30), seed("cs"), num("step", {{1, T ? 1 : 31, T ? 1 : 31}})}), with(pick(any), "mock", 1), T ? 2 : 1, 1, sweep}); v.back().max_shrinks = 30;
    v.back().rule = "all 77 sets (cheap one-time functions): bit flips through a synthesised valid signature, its message and key, and keys whose root differs in a single byte";
    v.push_back({"mock-change", cat(cat(index_fields(), message_fields(3000)), {num("ks", 0, 1 << 30), seed("cs"), kind}), with(pick(any), "mock", 1), T ? 6000 : 500, 50, change}); v.back().max_shrinks = 300;
    v.back().rule = "a synthesised valid signature of every set and one change (flip, splice, index, length, key, identifier, near-miss root, arbitrary bytes), judged by the model";
    v.push_back({"real-change", cat(cat(index_fields(), message_fields(1500)), {num("ks", 0, 1 << 30), seed("cs"), kind}), with(pick([&](const ref::P &p) { return T || p.d <= 4 || p.n == 24; }), "mock", 0), T ? 60 : 8, 4, change}); v.back().max_shrinks = 60;
    v.back().rule = "the same with real hashing";
    v.push_back({"real-sweep", cat(cat(index_fields(), message_fields(40)), {num("ks", 0, 1 << 30), seed("cs"), num("step", 499, 499)}), with(pick([&](const ref::P &p) { return p.d == 1 && p.h == 10; }), "mock", 0), T ? 4 : 1, 1, sweep}); v.back().max_shrinks = 10;
    v.back().rule = "bit flips with real hashing";
    std::vector<Fixed> cs; for (S s : {S{2, 1, 0}, S{5, 1, 0}, S{2, 3, 0}, S{3, 2, 0}, S{7, 9, 0}, S{4, 2, 0}}) for (int g = 0; g < 7; g++) for (int wi = 0; wi < 3; wi++) if (T || (g + wi + s.th) % 3 == 0) cs.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"g", g}, {"wi", wi}, {"mock", 0}});
    v.push_back({"custom-change", cat(cat(index_fields(), message_fields(600)), {num("ks", 0, 1 << 30), seed("cs"), kind}), cs, T ? 60 : 4, 4, change}); v.back().max_shrinks = 60;
    v.back().rule = "custom shapes, w=4,16,256, heights up to 63";
    std::vector<Fixed> rc; for (S s : {S{3, 1, 0}, S{2, 2, 0}, S{2, 3, 0}, S{3, 2, 0}}) rc.push_back({{"th", s.th}, {"d", s.d}, {"k", 0}});
    v.push_back({"recombine", {num("ks", 0, 2), seed("cs"), num("g", {{3, 0, 0}, {1, 1, 6}})}, rc, T ? 1500 : 60, 30, recombine}); v.back().max_shrinks = 100;
    v.back().rule = "fields of two genuine signatures of one key mixed; non-trivial: they differ in index or message";
    return v;
}
