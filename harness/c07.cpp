// C07: the end of a key's life.
#include "fab.hpp"
#include <cstring>
using namespace eng; using namespace lib; using namespace shapes;

static bool has_seed(const Buf &sk, const Buf &seed) {
    for (size_t o = 0; o + 8 <= seed.size(); o += 4)
        for (size_t i = 0; i + 8 <= sk.size(); i++) if (!memcmp(&sk[i], &seed[o], 8)) return true;
    return false;
}
struct End {
    Api a; KeyPair kp; Buf skseed, skprf; Bytes b{3};
    End(const Api &a_, KeyPair k, uint64_t s) : a(a_), kp(std::move(k)), b(s) { const u8 *q = kp.sk.data() + a.off + a.p.idxb; skseed.assign(q, q + a.p.n); skprf.assign(q + a.p.n, q + 2 * a.p.n); }
    // signs from the stored index to the end; each result is checked for status and length, and verified or compared when asked
    uint64_t to_end(ref::Key *model, const Api *verifier, uint64_t tail) {
        const ref::P &p = a.p; uint64_t i = a.index(kp.sk.data()), last = last_index(p), cnt = 0;
        for (; i <= last; i++, cnt++) {
            Buf m = b.get(b.below(40)), sm(a.sig + m.size(), 0x33), o(a.sig + m.size(), 0x44); ull n = 0, ml = 0;
            int r = a.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
            if (r) fail("%s: signing returns %d at index %llu, the last index is %llu", pname(p), r, (ull)i, (ull)last);
            if (n != sm.size()) fail("%s: %llu bytes announced at index %llu", pname(p), n, (ull)i);
            if (ref::to_int(sm.data(), p.idxb) != i) fail("%s: signature at index %llu carries index %llu", pname(p), (ull)i, (ull)ref::to_int(sm.data(), p.idxb));
            if (last - i < tail) {
                if (model) { Buf w = model->sign(i, m.data(), m.size()); if (memcmp(w.data(), sm.data(), w.size())) fail("%s: signature %llu (last is %llu) is not the standard's", pname(p), (ull)i, (ull)last); }
                if (verifier) { r = verifier->open(o.data(), &ml, sm.data(), n, kp.pk.data()); if (r || ml != m.size()) fail("%s: signature %llu (last is %llu) does not verify", pname(p), (ull)i, (ull)last); }
            }
        }
        return cnt;
    }
    // the key is finished: every further call must be refused
    void refused(unsigned calls, const Api *verifier, Ctx &x) {
        const ref::P &p = a.p;
        for (unsigned k = 0; k < calls; k++) {
            Buf m = b.get(b.below(40)), sm(a.sig + m.size(), 0x33), o(a.sig + m.size(), 0x44); ull n = 0xdead, ml = 7;
            if (b.below(3) == 0) { Buf c(kp.sk); kp.sk.swap(c); }
            int r = a.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
            if (!r) fail("%s: call %u after the last signature succeeds (index in it: %llu)", pname(p), k + 1, (ull)ref::to_int(sm.data(), p.idxb));
            uint64_t now = a.index(kp.sk.data());
            if (now <= last_index(p)) fail("%s: after %u refusals the key holds the usable index %llu", pname(p), k + 1, (ull)now);
            if (has_seed(kp.sk, skseed) || has_seed(kp.sk, skprf)) fail("%s: secret seeds are still in the key after refusal %u", pname(p), k + 1);
            if (verifier && k < 3 && !verifier->open(o.data(), &ml, sm.data(), sm.size(), kp.pk.data())) fail("%s: refused call %u leaves a valid signature behind", pname(p), k + 1);
            // nothing of a signature may have been produced: one-time key values are recognisable by the untouched buffer
            const u8 *w = sm.data() + p.idxb + p.n; bool touched = false;
            for (size_t i = 0; i < (size_t)p.len * p.n; i++) if (w[i] != 0x33) touched = true;
            if (touched && verifier && k < 3) {
                // scratch use is fine, a one-time signature of this key is not: it would chain up to a leaf below the root
                Buf sm2 = sm; for (uint64_t t : {last_index(p), (uint64_t)0}) { ref::to_bytes(sm2.data(), p.idxb, t); ull q = 0; if (!verifier->open(o.data(), &q, sm2.data(), sm2.size(), kp.pk.data())) fail("%s: refused call %u leaves a valid signature behind", pname(p), k + 1); }
            }
        }
        x.label("refused calls", calls);
    }
};
static bool mocks() { return get("mockfast").mock_ok && get("mockbasic").mock_ok; }
static const Lib *pick_lib(const Case &c, Ctx &x) {
    bool mock = c["mock"], fast = c["fast"];
    if (mock && !mocks()) { x.skipped = true; return nullptr; }
    return &get(std::string(mock ? "mock" : "") + (fast ? "fast" : "basic"));
}
static void whole(const Api &a, const Case &c, Ctx &x) {
    KeyPair kp = make_key(a, c["ks"]); ref::Key model = model_of(a, kp.sk.data()); model.compute_root();
    End e(a, kp, c["ks"]); uint64_t n = e.to_end(&model, &a, 1 << 20);
    if (n != last_index(a.p) + 1) fail("%s: %llu signatures instead of %llu", pname(a.p), (ull)n, (ull)last_index(a.p) + 1);
    e.refused((unsigned)c["more"], &a, x);
    x.nontrivial = true; x.label(a.p.h == 8 * a.p.idxb ? "index bytes full" : "room in index bytes"); x.label("complete lifetimes"); x.sample = std::string(pname(a.p)) + " lifetime=" + std::to_string(n);
}
static void small(const Case &c, Ctx &x) { const Lib *L = pick_lib(c, x); if (L) whole(custom(*L, params(c, c["g"])), c, x); }
static void oid_whole(const Case &c, Ctx &x) { const Lib *L = pick_lib(c, x); if (L) whole(api(*L, ref::standard()[c["ps"]]), c, x); }
// plain signer placed a few signatures before the end of a standard key
static void oid_end(const Case &c, Ctx &x) {
    const Lib *L = pick_lib(c, x); if (!L) return;
    Api a = api(*L, ref::standard()[c["ps"]]); const ref::P &p = a.p;
    ref::Key &k = cached_key(p, c["ks"]);
    End e(a, plain_key(a, k, last_index(p) - c["back"]), c["ms"]);
    e.to_end(&k, &a, 1 << 20); e.refused((unsigned)c["more"], &a, x);
    x.nontrivial = true; x.label(p.h == 8 * p.idxb ? "index bytes full" : "room in index bytes"); x.sample = pname(p);
}
// fast key with its traversal state filled in a few signatures before the end; where the layout of the state is unknown,
// a young fast key with the index set by hand: then status, refusal and erasure only
static void oid_end_fast(const Case &c, Ctx &x) {
    const Lib *L = pick_lib(c, x); if (!L) return;
    Api a = api(*L, ref::standard()[c["ps"]]); const ref::P &p = a.p;
    if (fab::usable(*L)) {
        ref::Key &k = cached_key(p, p.th > 10 ? 0 : c["ks"] % 2); x.label("traversal state filled in");
        End e(a, fab::key(a, k, last_index(p) - c["back"]), c["ms"]); e.to_end(&k, &a, 1 << 20); e.refused((unsigned)c["more"], &a, x);
        x.nontrivial = true; x.label(p.h == 8 * p.idxb ? "index bytes full" : "room in index bytes"); x.sample = pname(p); return;
    }
    KeyPair kp = make_key(a, c["ks"]); a.set_index(kp.sk.data(), last_index(p) - c["back"]);
    End e(a, kp, c["ms"]); e.to_end(nullptr, nullptr, 0); e.refused((unsigned)c["more"], &a, x);
    x.nontrivial = true; x.label(p.h == 8 * p.idxb ? "index bytes full" : "room in index bytes"); x.sample = pname(p);
}
// any stored index without a one-time key is refused
static void beyond(const Case &c, Ctx &x) {
    const Lib *L = pick_lib(c, x); if (!L) return;
    Api a = api(*L, ref::standard()[c["ps"]]); const ref::P &p = a.p;
    uint64_t top = p.idxb >= 8 ? ~0ULL : (1ULL << (8 * p.idxb)) - 1, lo = last_index(p) + 1, idx;
    uint64_t r = (uint64_t)c["ia"] * 0x9E3779B97F4A7C15ULL;
    switch (c["im"]) { case 0: idx = lo; break; case 1: idx = top; break; case 2: idx = lo + r % 8; break; case 3: idx = top - r % 8; break; case 4: idx = lo << (r >> 20) % 5; break; default: idx = lo + (top - lo ? r % (top - lo) : 0); }
    if (idx < lo || idx > top) idx = lo;
    KeyPair kp;
    if (L->fast) { kp = make_key(a, c["ks"]); a.set_index(kp.sk.data(), idx); } else kp = plain_key(a, cached_key(p, c["ks"]), idx);
    End e(a, kp, c["ia"]); e.refused((unsigned)c["more"], &a, x);
    x.nontrivial = true; x.sample = std::string(pname(p)) + " stored=" + std::to_string(idx);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v; Field more = num("more", {{4, 1, 6}, {1, 250, 600}});
    auto with = [](std::vector<Fixed> f, const char *k, int64_t x) { for (auto &e : f) e[k] = x; return f; };
    std::vector<Fixed> w; std::vector<S> sh = all(T ? 14 : 11);
    for (S s : {S{2, 8, 0}, S{4, 4, 0}, S{8, 2, 0}, S{8, 2, 2}}) sh.insert(sh.begin(), s);        // height 16: index bytes full
    for (auto &s : sh) { w.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"fast", 1}, {"mock", 1}}); if (!s.k && s.th <= 5 && s.th * s.d <= (T ? 14u : 10u)) w.push_back({{"th", s.th}, {"d", s.d}, {"k", 0}, {"fast", 0}, {"mock", 1}}); }
    auto f10 = with(with(pick([&](const ref::P &p) { return p.th == 10 && p.d == 1; }, {1}), "mock", 1), "x", 0);
    auto f20 = with(pick([&](const ref::P &p) { return p.h == 20 && p.d == 4 && (T || (p.n == 24 && p.func == 0)); }, {1}), "mock", 1);
    if (T) for (auto &f : with(pick([&](const ref::P &p) { return p.h == 16; }, {1}), "mock", 1)) f20.push_back(f);
    v.push_back({"oid-long", {num("ks", 0, 1 << 30), more}, f20, 1, 1, oid_whole}); v.back().max_shrinks = 1; v.back().hang_s = T ? 3600 : 300;
    v.back().rule = "complete lifetime of 2^20 (2^16) signatures of a standard set, fast signer, cheap one-time functions, then refused calls";
    v.push_back({"small", {num("ks", 0, 1 << 30), num("g", 0, 6), more}, w, T ? 4 : 1, 1, small}); v.back().max_shrinks = 8;
    v.back().rule = "complete lifetime of custom shapes (heights 8 and 16 with several layers fill the index bytes), every signature verified and compared, then refused calls";
    v.push_back({"oid-whole", {num("ks", 0, 1 << 30), more}, f10, T ? 4 : 1, 1, oid_whole}); v.back().max_shrinks = 4;
    v.back().rule = "complete lifetime of the height 10 sets, fast signer";
    auto le = [](const ref::P &p) { return p.th <= 10; };
    v.push_back({"oid-end", {num("ks", 0, 1), seed("ms"), num("back", 0, 3), more}, with(pick(le, {0}), "mock", 1), T ? 20 : 3, 3, oid_end});
    v.back().rule = "plain signer of a standard set a few signatures before the end, then refused calls";
    v.push_back({"oid-end-high", {num("ks", 0, 0), seed("ms"), num("back", 0, 1), more}, with(pick([&](const ref::P &p) { return p.th == 16 || (p.th == 20 && p.n == 24 && p.func == 0 && (T || p.d == 2)); }, {0}), "mock", 1), 1, 1, oid_end}); v.back().max_shrinks = 4;
    v.back().rule = "the same for subtree heights 16 and 20";
    v.push_back({"oid-end-fast", {num("ks", 0, 1 << 30), seed("ms"), num("back", 0, 3), more}, with(pick([&](const ref::P &p) { return p.th <= 16 || (p.n == 24 && p.func == 0 && T); }, {1}), "mock", 1), T ? 10 : 2, 2, oid_end_fast});
    v.back().rule = "fast key with its traversal state filled in for an index near the end: valid signatures up to the last index, refusal and erasure afterwards";
    auto bs = pick(le, {0}); for (auto &f : pick(le, {1})) bs.push_back(f);
    v.push_back({"beyond", {num("ks", 0, 0), seed("ia"), num("im", 0, 5), num("more", 1, 4)}, with(bs, "mock", 1), T ? 30 : 4, 4, beyond});
    v.back().rule = "keys holding an index at or beyond the end are refused and erased";
    std::vector<Fixed> rs; for (S s : {S{2, 1, 0}, S{4, 1, 2}, S{4, 2, 0}, S{2, 4, 0}, S{2, 2, 0}, S{3, 2, 1}}) for (int fast = 0; fast < 2; fast++) if (fast || !s.k) rs.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"fast", fast}, {"mock", 0}});
    v.push_back({"real-small", {num("ks", 0, 1 << 30), num("g", {{3, 0, 0}, {1, 1, 6}}), num("more", 1, 4)}, rs, T ? 10 : 1, 1, small}); v.back().max_shrinks = 6;
    v.back().rule = "complete lifetimes with real hashing";
    v.push_back({"real-oid", {num("ks", 0, 1 << 30), num("more", 1, 4)}, with(pick([&](const ref::P &p) { return p.th == 10 && p.d == 1 && (T ? p.n < 64 : p.func == 0 && p.n == 24); }, {1}), "mock", 0), 1, 1, oid_whole}); v.back().max_shrinks = 1;
    v.back().rule = "complete lifetime of a height 10 set with real hashing, fast signer";
    more_real(v, 4);
    return v;
}
