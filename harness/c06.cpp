// C06: index discipline, and no one-time key at any layer ever used for two values.
#include "fab.hpp"
#include <algorithm>
#include <cstring>
#include <unordered_map>
using namespace eng; using namespace lib; using namespace shapes;

struct Use { uint64_t h; };
static uint64_t fp(const void *p, size_t n) { uint64_t s = 0x1234567; const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i++) s = (s ^ b[i]) * 0x100000001B3ULL ^ (s >> 37); return s; }
static uint64_t addr_key(unsigned layer, uint64_t tree, uint64_t leaf) { return eng::mix(eng::mix(tree, layer + 1), leaf); }

// what the one-time signing function itself was asked to sign (cheap builds only)
static std::unordered_map<uint64_t, uint64_t> *log_used; static std::string log_bad;
static void on_wots(const uint32_t *a, const u8 *m, unsigned n) {
    uint64_t tree = (uint64_t)a[1] << 32 | a[2], k = addr_key(a[0], tree, a[4]), h = fp(m, n);
    auto r = log_used->emplace(k, h);
    if (!r.second && r.first->second != h) { char b[160]; snprintf(b, sizeof b, "one-time key (layer %u, tree %llu, leaf %u) signs two different values", a[0], (ull)tree, a[4]); log_bad = b; }
}

struct Watch {
    Api a; KeyPair kp; uint64_t idx; std::unordered_map<uint64_t, uint64_t> seen, logged; uint64_t upper = 0; bool check_upper; Buf last_msg;
    Watch(const Api &a_, KeyPair k, uint64_t start, bool cu) : a(a_), kp(std::move(k)), idx(start), check_upper(cu) {}
    ~Watch() { if (a.L->wots_log) *a.L->wots_log = nullptr; }
    void arm() { if (a.L->wots_log) { log_used = &logged; log_bad.clear(); *a.L->wots_log = on_wots; } }
    void step(const Buf &m, bool reload) {
        const ref::P &p = a.p; Buf before = kp.sk;
        if (reload) { Buf copy(kp.sk); memset(kp.sk.data(), 0xEE, kp.sk.size()); kp.sk.swap(copy); }
        uint64_t stored = a.index(kp.sk.data());
        if (stored != idx) fail("%s: key holds index %llu, %llu is next", pname(p), (ull)stored, (ull)idx);
        Buf sm(a.sig + m.size(), 0x33); ull n = 0;
        int r = a.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
        if (r) fail("%s: signing returns %d at index %llu", pname(p), r, (ull)idx);
        uint64_t in_sig = ref::to_int(sm.data(), p.idxb);
        if (in_sig != idx) fail("%s: signature carries index %llu, the key held %llu", pname(p), (ull)in_sig, (ull)idx);
        if (idx < last_index(p) || p.h < 8 * p.idxb) {
            uint64_t now = a.index(kp.sk.data());
            if (now != idx + 1) fail("%s: after index %llu the key holds %llu", pname(p), (ull)idx, (ull)now);
        }
        if (idx < last_index(p)) {
            size_t s = a.off + p.idxb, e = a.L->fast ? s + 4 * p.n : kp.sk.size();
            if (memcmp(before.data(), kp.sk.data(), a.off)) fail("%s: identifier in the secret key changed at index %llu", pname(p), (ull)idx);
            for (size_t i = s; i < e; i++) if (before[i] != kp.sk[i]) fail("%s: byte %zu of the secret key (%s) changed at index %llu", pname(p), i, i < s + 4 * p.n ? "seeds and root" : "beyond the key", (ull)idx);
        }
        if (!log_bad.empty() && a.L->wots_log) fail("%s at index %llu: %s", pname(p), (ull)idx, log_bad.c_str());
        if (check_upper) {
            size_t per = (size_t)(p.len + p.th) * p.n; const u8 *w = sm.data() + p.idxb + p.n; uint64_t t = idx;
            for (unsigned l = 0; l < p.d; l++, w += per) {
                uint64_t leaf = t & tree_mask(p); t >>= p.th;
                if (l == 0) continue;
                auto e = seen.emplace(addr_key(l, t, leaf), fp(w, (size_t)p.len * p.n));
                if (!e.second && e.first->second != fp(w, (size_t)p.len * p.n)) fail("%s: at index %llu the one-time key (layer %u, tree %llu, leaf %llu) has another signature than before", pname(p), (ull)idx, l, (ull)t, (ull)leaf);
                if (!e.second) upper++;
            }
        }
        idx++;
    }
};
static bool mocks() { return get("mockfast").mock_ok && get("mockbasic").mock_ok; }
static const Lib *pick_lib(const Case &c, Ctx &x) {
    bool mock = c["mock"], fast = c["fast"];
    if (mock && !mocks()) { x.skipped = true; return nullptr; }
    return &get(std::string(mock ? "mock" : "") + (fast ? "fast" : "basic"));
}
// operation sequence: each op gives the message (new, repeated, empty, long) and whether the key is reloaded
static void run_ops(Watch &w, const std::vector<int64_t> &ops, uint64_t max, Ctx &x) {
    Buf m; uint64_t done = 0;
    w.arm();
    for (int64_t op : ops) {
        if (done >= max) break;
        int kind = op & 7; bool reload = op & 8; int rep = 1;
        if (kind == 0) m.clear(); else if (kind == 1) x.label("same message again"); else if (kind == 7) rep = 1 + (op >> 4) % 40; else m = Bytes(op).get((op >> 4) % 90);
        if (reload) x.label("reload");
        for (int i = 0; i < rep && done < max; i++, done++) w.step(m, reload);
    }
    x.label("signatures", done); x.label("upper one-time signatures seen again", w.upper);
    x.nontrivial = done >= 2;
}
static void small(const Case &c, Ctx &x) {
    const Lib *L = pick_lib(c, x); if (!L) return;
    ref::P p = params(c, c["g"]); Api a = custom(*L, p);
    if (L->wots_log) { static std::unordered_map<uint64_t, uint64_t> kg; kg.clear(); log_used = &kg; log_bad.clear(); *L->wots_log = on_wots; KeyPair k = make_key(a, c["ks"]); *L->wots_log = nullptr; Watch w(a, k, 0, true); w.logged = kg; run_ops(w, c.lst("ops"), last_index(p) + 1, x); }
    else { Watch w(a, make_key(a, c["ks"]), 0, true); run_ops(w, c.lst("ops"), std::min<uint64_t>(last_index(p) + 1, 40), x); }
    x.sample = std::string(pname(p));
}
static void whole(const Case &c, Ctx &x) {
    const Lib *L = pick_lib(c, x); if (!L) return;
    ref::P p = params(c, c["g"]); Api a = custom(*L, p); Watch w(a, make_key(a, c["ks"]), 0, true);
    w.arm(); for (uint64_t i = 0; i <= last_index(p); i++) w.step(Bytes(mix(c["ks"], i / 2)).get(i / 2 % 9), i % 5 == 0);
    x.nontrivial = true; x.label("complete lifetimes"); x.label("signatures", last_index(p) + 1); x.label("upper one-time signatures seen again", w.upper); x.sample = pname(p);
}
static void lifetime(const Case &c, Ctx &x) {
    const Lib &L = get("mockfast"); if (!mocks()) { x.skipped = true; return; }
    Api a = api(L, ref::standard()[c["ps"]]); Watch w(a, make_key(a, c["ks"]), 0, true); uint64_t n = std::min<uint64_t>(c["upto"], last_index(a.p) + 1);
    w.arm(); for (uint64_t i = 0; i < n; i++) w.step(Bytes(mix(c["ks"], i / 2)).get(i / 2 % 5), i % 1000 == 0);
    x.nontrivial = true; x.label("signatures", n); x.label("upper one-time signatures seen again", w.upper); x.sample = pname(a.p);
}
// starting from any index: carries between index bytes, ends of trees
static void carry(const Case &c, Ctx &x) {
    const Lib *L = pick_lib(c, x); if (!L) return;
    const ref::P &p0 = ref::standard()[c["ps"]]; Api a = api(*L, p0); const ref::P &p = a.p;
    uint64_t idx = pick_index(p, c);
    if (c["cb"] > 0) { unsigned bits = 8 * (unsigned)c["cb"]; uint64_t low = (1ULL << bits) - 1; if (low <= last_index(p)) idx = (idx & ~low) | (low - (uint64_t)c["back"]); }
    if (idx > last_index(p)) idx = last_index(p);
    KeyPair kp;
    bool grown = L->fast && fab::usable(*L) && p.th <= 10;     // the fast signer's traversal state filled in
    if (grown) kp = fab::key(a, cached_key(p, c["ks"]), idx);
    else if (L->fast) { kp = make_key(a, c["ks"]); a.set_index(kp.sk.data(), idx); }
    else kp = plain_key(a, cached_key(p, c["ks"]), idx);
    Watch w(a, kp, idx, !L->fast || grown); w.arm();
    uint64_t start = idx; unsigned cnt = 0, most = grown ? 3 + (unsigned)c["more"] : 3; if (grown) x.label("traversal state filled in");
    for (; cnt < most && w.idx <= last_index(p); cnt++) w.step(Bytes(mix(c["ks"], cnt)).get(cnt), cnt == 1);
    x.nontrivial = cnt > 1; unsigned t = 0; for (uint64_t d = start ^ (start + cnt - 1); d; d >>= 8) t++;
    x.label(t > 1 ? "carry into byte " + std::to_string(t) : "no carry"); x.sample = std::string(pname(p)) + " from " + std::to_string(start);
}
// Several indices of one key that differ in few bits (single bits, swapped or shifted layers). Every chain value of
// every one-time signature is unique to its place: two places that share a value share a one-time key (with w=16 and 51
// or more chains, two signatures of one one-time key agree in some chain with probability above 0.96).
static void twins(const Case &c, Ctx &x) {
    const Lib *L = pick_lib(c, x); if (!L) return;
    bool std_ = c.v.count("ps"); ref::P p0 = std_ ? ref::standard()[c["ps"]] : params(c, c["g"]); Api a = std_ ? api(*L, p0) : custom(*L, p0); const ref::P &p = a.p;
    bool fast = L->fast; if (fast && !fab::usable(*L)) { x.skipped = true; return; }
    uint64_t base = pick_index(p, c), last = last_index(p), rnd = (uint64_t)c["rs"]; std::vector<uint64_t> idx{base};
    for (int64_t op : c.lst("ops")) {
        uint64_t i = base; unsigned b = (unsigned)(op / 4 % p.h), s = p.th * (unsigned)(1 + op / 256 % std::max(1u, p.d - 1));
        switch (op & 3) {
        case 0: case 1: i ^= 1ULL << b; break;
        case 2: i = op & 128 ? i << s : i >> s; break;                                // what was at one layer is now at another
        default: rnd = mix(rnd, op); i = rnd; break;
        }
        i &= p.h < 64 ? (1ULL << p.h) - 1 : ~0ULL; if (i <= last && std::find(idx.begin(), idx.end(), i) == idx.end()) idx.push_back(i);
    }
    ref::Key &K = cached_key(p, c["ks"]); std::unordered_map<uint64_t, uint64_t> logged; std::unordered_map<std::string, std::string> owner; uint64_t values = 0;
    size_t per = (size_t)(p.len + p.th) * p.n; bool real = !c["mock"];
    for (uint64_t i : idx) {
        KeyPair kp = fast ? fab::key(a, K, i) : plain_key(a, K, i); Buf m = Bytes(mix(c["ks"], i)).get(11), sm(a.sig + m.size()); ull n = 0;
        if (L->wots_log) { log_used = &logged; log_bad.clear(); *L->wots_log = on_wots; }
        int r = a.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
        if (L->wots_log) *L->wots_log = nullptr;
        if (r) fail("%s: signing returns %d at index %llu", pname(p), r, (ull)i);
        if (L->wots_log && !log_bad.empty()) fail("%s at index %llu, after index %llu: %s", pname(p), (ull)i, (ull)idx[0], log_bad.c_str());
        if (!real) continue;
        const u8 *w = sm.data() + p.idxb + p.n; uint64_t t = i;
        for (unsigned l = 0; l < p.d; l++, w += per) {
            uint64_t leaf = t & tree_mask(p); t >>= p.th;
            for (unsigned q = 0; q < p.len; q++) {
                char pos[96]; snprintf(pos, sizeof pos, "layer %u, tree %llu, leaf %llu, chain %u", l, (ull)t, (ull)leaf, q); values++;
                auto e = owner.emplace(std::string((const char *)w + q * p.n, p.n), pos);
                if (!e.second && e.first->second != pos) fail("%s: signatures at indices up to %llu: one-time keys (%s) and (%s) share a chain value", pname(p), (ull)i, e.first->second.c_str(), pos);
            }
        }
    }
    x.nontrivial = idx.size() > 1; x.label("indices", idx.size()); if (values) x.label("chain values", values); x.sample = std::string(pname(p)) + " from " + std::to_string(base);
}
// many starts inside one tall tree: index sequence and one-time keys, whatever the carry
static void tall_tree(const Case &c, Ctx &x) {
    if (!mocks()) { x.skipped = true; return; }
    Api a = api(get("mockfast"), ref::standard()[c["ps"]]); const ref::P &p = a.p;
    if (!fab::usable(*a.L)) { x.skipped = true; return; }
    ref::Key &k = cached_key(p, c["ks"]); Bytes b(mix(c["tt"], 7));
    for (uint64_t start : fab::tall_starts(p, c)) {
        Watch w(a, fab::key(a, k, start), start, true); w.arm();
        for (unsigned s = 0; s < 4 && w.idx <= last_index(p); s++) { w.step(b.get(b.below(9)), s == 1); x.label("signatures"); }
    }
    uint64_t starts = c.lst("st").size() + (uint64_t)c["more"]; x.nontrivial = starts > 3; x.sample = std::string(pname(p)) + " starts=" + std::to_string(starts);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    std::vector<Fixed> life;
    auto add = [&](const char *name, int64_t upto) { for (auto &f : pick([&](const ref::P &p) { return p.name == name; })) { auto g = f; g["upto"] = upto; life.push_back(g); } };
    if (T) { for (auto &p : ref::standard()) if (p.th <= 16) add(p.name.c_str(), 1 << 20); }
    else { add("XMSSMT-SHA2_20/4_192", 1 << 20); add("XMSSMT-SHA2_20/2_192", 1 << 18); add("XMSSMT-SHA2_60/12_192", 70000); add("XMSS-SHA2_16_192", 1 << 16); add("XMSSMT-SHAKE256_40/4_192", 70000); }
    v.push_back({"lifetime", {num("ks", 0, 1 << 30)}, life, 1, 1, lifetime});
    v.back().rule = "long history of a standard set (fast signer, cheap one-time functions): index sequence, key fields, one value per one-time key in the signatures and at the one-time signing function"; v.back().max_shrinks = 2; v.back().hang_s = T ? 3600 : 300;
    v.push_back({"tall", fab::tall_fields(), fab::tall_sets(T), 3, 3, tall_tree}); v.back().max_shrinks = 8; v.back().hang_s = 300;
    v.back().rule = "subtree heights 16 and 20, fast signer placed at up to 260 generated indices of one tree (carries between all bits of the leaf number): four signatures from each; non-trivial: more than 3 starts";
    auto sh = all(T ? 16 : 12); std::vector<Fixed> ws;
    for (auto &s : sh) { Fixed f{{"th", s.th}, {"d", s.d}, {"k", s.k}, {"mock", 1}, {"fast", 1}}; ws.push_back(f); if (!s.k && s.th <= 5 && s.th * s.d <= (T ? 12u : 10u)) { f["fast"] = 0; ws.push_back(f); } }
    v.push_back({"whole", {num("ks", 0, 1 << 30), num("g", 0, 6)}, ws, T ? 3 : 1, 1, whole});
    v.back().rule = "complete lifetime of every legal small shape, messages repeated in pairs"; v.back().max_shrinks = 6;
    std::vector<Fixed> hs;
    for (auto &s : all(9)) for (int fast = 0; fast < 2; fast++) for (int mock = 0; mock < 2; mock++) if ((mock || s.th <= 3) && (fast || (!s.k && s.th <= 5))) hs.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"fast", fast}, {"mock", mock}});
    v.push_back({"history", {num("ks", 0, 1 << 30), num("g", {{3, 0, 0}, {1, 1, 6}}), list("ops", 60, {{1, 0, 4095}})}, hs, T ? 40 : 4, T ? 10 : 2, small});
    v.back().rule = "generated histories: new, repeated, empty messages, bursts, reload from a copy; non-trivial: at least two signatures";
    auto sets = pick([](const ref::P &p) { return p.th <= 10; }, {0, 1}); for (auto &f : sets) f["mock"] = 1;
    v.push_back({"carry", cat(index_fields(), {num("cb", 0, 7), num("back", 0, 2), num("ks", 0, 1), num("more", {{3, 0, 6}, {1, 30, 70}})}), sets, T ? 80 : 8, T ? 20 : 8, carry});
    v.back().rule = "three signatures (more with the fast signer) from a generated index (byte carries, tree ends, last indices); non-trivial: at least two signatures";
    auto real = pick([](const ref::P &p) { return p.th == 5 && p.func == 0 && p.n < 64; }, {0, 1}); for (auto &f : real) f["mock"] = 0;
    v.push_back({"carry-real", cat(index_fields(), {num("cb", 0, 7), num("back", 0, 2), num("ks", 0, 1), num("more", {{3, 0, 6}, {1, 30, 70}})}), real, T ? 20 : 2, 2, carry});
    v.back().rule = "the same with real hashing";
    std::vector<Field> tf = cat(index_fields(), {num("rs", 0, 1 << 30), num("ks", 0, 1), list("ops", T ? 10 : 6, {{1, 0, 1 << 14}})});
    v.push_back({"twins", tf, sets, T ? 200 : 6, T ? 20 : 3, twins});
    v.back().rule = "several indices of one key that differ in single bits or shifted layers: no one-time address signs two values; non-trivial: at least two indices";
    v.push_back({"twins-real", tf, real, T ? 40 : 1, T ? 4 : 1, twins});
    v.back().rule = "the same with real hashing: no chain value occurs at two places";
    std::vector<Fixed> tall; for (unsigned d : {1u, 2u, 3u, 4u, 7u, 12u, 19u, 30u, 31u}) for (unsigned th : {2u, 3u, 5u}) for (int g = 0; g < 7; g++) for (int fast = 0; fast < 2; fast++) if (th * d < 64 && (T || (g + d + th) % 7 == (unsigned)fast) && (!fast || d * th <= (T ? 28u : 12u))) tall.push_back({{"th", th}, {"d", d}, {"k", 0}, {"g", g}, {"mock", 0}, {"fast", fast}});
    v.push_back({"twins-shapes", tf, tall, T ? 30 : 1, T ? 5 : 1, twins});
    v.back().rule = "the same for shapes with up to 62 bits of index, all hash functions";
    more_real(v, 4);
    return v;
}
