// Secret keys of the fast signer at any index, without signing up to it: the traversal state is filled in from the
// model's tree nodes. The state's layout belongs to the implementation, so usable() first finds out whether keys made
// this way behave like grown ones (sizes, and whole remaining lifetimes of small shapes); if not, the stages built on
// them are skipped.
#pragma once
#include "shapes.hpp"
#include <cstring>
namespace fab {
using namespace lib;
inline uint64_t state_bytes(const ref::P &p) {
    uint64_t th = p.th, n = p.n, r = (1ULL << p.k) - p.k - 1;
    return (2 * p.d - 1) * ((th + 1) * n + 4 + th + 1 + th * n + (th >> 1) * n + (th - p.k) * (7 + n) + r * n + 4) + (uint64_t)(p.d - 1) * p.len * n;
}
struct View {                       // one traversal state inside the key
    u8 *stack, *offset, *levels, *auth, *keep, *th, *retain, *next; unsigned h, n, k;
    View(const ref::P &p, u8 *s) : h(p.th), n(p.n), k(p.k) {
        stack = s; offset = stack + (h + 1) * n; levels = offset + 4; auth = levels + h + 1; keep = auth + h * n; th = keep + (h >> 1) * n;
        retain = th + (h - k) * (7 + n); next = retain + ((1u << k) - k - 1) * n;
    }
    u8 *end() const { return next + 4; }
    void inst(unsigned j, const u8 *node, bool have) { u8 *t = th + j * (7 + n); t[0] = (u8)j; t[6] = 1; if (have) memcpy(t + 7, node, n); }
    void top(ref::Key &K, unsigned layer, uint64_t tree, uint64_t leaves) {   // retained nodes known after that many leaves
        for (unsigned i = h - k; i + 1 < h; i++) for (uint64_t o = 3; o < (1ULL << (h - i)); o += 2)
            if ((o + 1) << i <= leaves) memcpy(retain + ((1ULL << (h - 1 - i)) + i - h + ((o - 3) >> 1)) * n, K.node(layer, tree, i, o), n);
    }
};
// The next tree of layer 0 has got as many leaves as signatures have been made from the current one; those of higher
// layers are complete, except that the one of layer 1 misses "lag" leaves (to be built from spare updates, so the end
// of the current tree on layer 1 must be far enough).
inline KeyPair key(const Api &a, ref::Key &K, uint64_t idx, unsigned lag = 0) {
    const ref::P &p = a.p; KeyPair kp = plain_key(a, K, idx); unsigned h = p.th, n = p.n; uint64_t mask = tree_mask(p);
    u8 *s = kp.sk.data() + a.off + p.idxb + 4 * n; std::vector<View> st;
    for (unsigned i = 0; i < 2 * p.d - 1; i++) { st.emplace_back(p, s); s = st.back().end(); }
    u8 *wsig = s; uint64_t t = idx;
    for (unsigned l = 0; l < p.d; l++) {
        uint64_t leaf = t & mask; t >>= h; View &v = st[l];
        for (unsigned j = 0; j < h; j++) memcpy(v.auth + j * n, K.node(l, t, j, (leaf >> j) ^ 1), n);
        for (unsigned j = 0; j + 2 <= h; j++) if ((leaf >> j & 3) == 1) memcpy(v.keep + (j >> 1) * n, K.node(l, t, j, leaf >> j), n);
        for (unsigned j = 0; j < h - p.k; j++) { uint64_t q = (leaf | ((2ULL << j) - 1)) + 1; bool have = q < (1ULL << h); v.inst(j, have ? K.node(l, t, j, (q >> j) + 1) : nullptr, have); }
        v.top(K, l, t, 1ULL << h);
        if (t) { ref::to_bytes(v.offset, 4, 1); v.levels[0] = (u8)h; memcpy(v.stack, K.node(l, t, h, 0), n); ref::to_bytes(v.next, 4, 1ULL << h); }
        if (l) {
            uint32_t ad[8]; ref::ots_addr(ad, l, t, (uint32_t)leaf); Buf g = ref::wots_sig(p, K.node(l - 1, (t << h) | leaf, h, 0), K.skseed.data(), K.seed.data(), ad);
            memcpy(wsig + (size_t)(l - 1) * p.len * n, g.data(), g.size());
        }
        if (l + 1 < p.d && t + 1 < 1ULL << (p.h - (l + 1) * h)) {     // a following tree exists on this layer
            View &x = st[p.d + l]; uint64_t got = l == 0 ? leaf : (1ULL << h) - (l == 1 ? lag : 0); unsigned so = 0;
            for (int j = (int)h; j >= 0; j--) if (got >> j & 1) { memcpy(x.stack + so * n, K.node(l, t + 1, (unsigned)j, (got >> j) - 1), n); x.levels[so++] = (u8)j; }
            ref::to_bytes(x.offset, 4, so); ref::to_bytes(x.next, 4, got);
            for (unsigned j = 0; j < h; j++) if (2ULL << j <= got) memcpy(x.auth + j * n, K.node(l, t + 1, j, 1), n);
            for (unsigned j = 0; j < h - p.k; j++) { bool have = 4ULL << j <= got; x.inst(j, have ? K.node(l, t + 1, j, 3) : nullptr, have); }
            x.top(K, l, t + 1, got);
        }
    }
    return kp;
}
// whether keys made this way behave like grown ones under this build
inline bool usable(const Lib &L) {
    static std::map<const Lib *, int> known;
    auto it = known.find(&L); if (it != known.end()) return it->second;
    bool ok = true;
    for (shapes::S s : {shapes::S{2, 1, 0}, {3, 2, 0}, {4, 1, 2}, {3, 2, 1}, {4, 2, 2}, {2, 3, 0}}) {
        if (!ok) break;
        Api a = custom(L, ref::make(s.th % 2, 32, 16, s.th * s.d, s.d, s.k)); const ref::P &p = a.p;
        if (a.prm.sk_bytes != p.idxb + 4 * p.n + state_bytes(p)) { ok = false; break; }
        KeyPair g = make_key(a, 77); ref::Key K = model_of(a, g.sk.data()); K.compute_root(); uint64_t last = last_index(p);
        for (uint64_t i = 0; i <= last && ok; i++) {
            if (L.mock || i == 0 || i == last / 2 + 1 || i == last - 1) {
                KeyPair f = key(a, K, i); Buf sm(a.sig), so(a.sig), keep = g.sk; ull n = 0; u8 m = 0;
                for (uint64_t j = i; j <= last && ok && (L.mock || j < i + 3); j++) {
                    if (a.sign(f.sk.data(), sm.data(), &n, &m, 0)) ok = false;
                    if (a.sign(keep.data(), so.data(), &n, &m, 0) || sm != so) ok = false;
                }
            }
            Buf so(a.sig); ull n = 0; u8 m = 0; if (ok && a.sign(g.sk.data(), so.data(), &n, &m, 0)) ok = false;
        }
    }
    return known[&L] = ok;
}
// Start indices inside tall trees: each entry of "st" gives an odd multiple of a power of two (8 and 16 bits more often,
// up to the end of the tree) and how far before it to start. All lie in one tree of layer 0, so that its nodes are
// computed once.
inline std::vector<eng::Field> tall_fields() { return {eng::num("ks", 0, 0), eng::seed("tt"), eng::num("more", {{1, 0, 0}, {9, 60, 200}}), eng::list("st", 60, {{1, 0, (int64_t)1 << 48}})}; }
inline std::vector<uint64_t> tall_starts(const ref::P &p, const eng::Case &c) {
    std::vector<uint64_t> v; uint64_t trees = 1ULL << (p.h - p.th), t = (uint64_t)c["tt"] % 3 == 0 ? 0 : (uint64_t)c["tt"] % 3 == 1 ? trees - 1 - (trees > 1) : ((uint64_t)c["tt"] >> 2) % trees;
    auto ops = c.lst("st"); for (int64_t i = 0; i < c["more"]; i++) ops.push_back((int64_t)(eng::mix((uint64_t)c["tt"], (uint64_t)i) >> 8));
    for (int64_t op : ops) {
        static const unsigned often[] = {8, 16, 8, 16, 15, 17, 7, 9}; unsigned j = op & 1 ? often[op >> 1 & 7] : (unsigned)(op >> 1) % (p.th + 1);
        if (j > p.th) j = p.th;
        uint64_t e = ((uint64_t)(op >> 8) << j | 1ULL << j) & ((1ULL << p.th) - 1), back = 1 + (op >> 6 & 3) % 3;
        if (!e) e = 1ULL << p.th;
        uint64_t i = (t << p.th) + (e > back ? e - back : 0); v.push_back(std::min(i, last_index(p)));
    }
    return v;
}
inline std::vector<eng::Fixed> tall_sets(bool all) {
    return shapes::pick([&](const ref::P &p) { return p.th >= 16 && (all || (p.d == 1 && p.func == 0 && (p.th == 16 ? p.n <= 32 : p.n == 24)) || (p.d == 1 && p.th == 20 && p.n == 32 && p.func == 0)); });
}
} // namespace fab
