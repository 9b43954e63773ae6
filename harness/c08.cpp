// C08: WOTS+ signatures recompute the key and cannot be advanced to other digests.
#include "shapes.hpp"
#include <cstring>
using namespace eng; using namespace lib;

static ref::P group(const Case &c) {
    static const struct { int f; unsigned n; } t[] = {{0, 32}, {0, 64}, {1, 32}, {2, 64}, {0, 24}, {2, 32}, {2, 24}};
    static const unsigned w[] = {16, 4, 256};
    return ref::make(t[c["g"]].f, t[c["g"]].n, w[c["wi"]], 10, 1);
}
static bool have(const Lib &L, Ctx &x) { if (L.wots_pkgen && L.wots_sign && L.wots_pk_from_sig) return true; x.skipped = true; return false; }
struct W {
    const Lib &L; ref::P p; xmss_params q; Buf sk, pub; uint32_t a[8]; size_t len;
    W(const Lib &l, const Case &c) : L(l), p(group(c)), q(lib_params(l, p)), len((size_t)p.len * p.n) {
        if (q.wots_len != p.len || q.wots_sig_bytes != len) fail("%s: %u chains of one-time signature instead of %u", pname(p), q.wots_len, p.len);
        Bytes b(c["s"]); sk = b.get(p.n); pub = b.get(p.n);
        for (int i = 0; i < 8; i++) a[i] = c["am"] ? (uint32_t)b.next() : 0;
        a[3] = 0; a[5] = a[6] = a[7] = 0;
    }
    Buf pkgen(const uint32_t *ad) const { Buf o(len); uint32_t t[8]; memcpy(t, ad, 32); L.wots_pkgen(&q, o.data(), sk.data(), pub.data(), t); return o; }
    Buf sign(const Buf &dg) const { Buf o(len); uint32_t t[8]; memcpy(t, a, 32); L.wots_sign(&q, o.data(), dg.data(), sk.data(), pub.data(), t); return o; }
    Buf rec(const Buf &sig, const Buf &dg, const Buf &pb, const uint32_t *ad, bool inplace = false) const {
        uint32_t t[8]; memcpy(t, ad, 32); Buf o(len);
        if (inplace) { o = sig; L.wots_pk_from_sig(&q, o.data(), o.data(), dg.data(), pb.data(), t); } else L.wots_pk_from_sig(&q, o.data(), sig.data(), dg.data(), pb.data(), t);
        return o;
    }
};
// Digests with many equal, extreme or structured digits. unit: bytes.
static Buf digest(Bytes &b, unsigned n, int64_t dm) {
    Buf d = b.get(n);
    switch (dm) {
    case 1: std::fill(d.begin(), d.end(), 0); break;
    case 2: std::fill(d.begin(), d.end(), 0xff); break;
    case 3: { size_t k = b.below(n + 1); for (size_t i = 0; i < n; i++) d[i] = i < k ? 0 : 0xff; break; }
    case 4: { std::fill(d.begin(), d.end(), b.below(2) ? 0 : 0xff); d[b.below(n)] = (u8)b.next(); break; }
    case 5: { u8 x = (u8)b.next(); std::fill(d.begin(), d.end(), x); break; }
    default: break;
    }
    return d;
}
static void roundtrip(const Case &c, Ctx &x) {
    const Lib &L = get(c["s"] & 1 ? "fast" : "basic"); if (!have(L, x)) return;
    W w(L, c); const ref::P &p = w.p; Bytes b(c["cs"]); Buf dg = digest(b, p.n, c["dm"]);
    Buf pk = w.pkgen(w.a), sig = w.sign(dg);
    Buf r = w.rec(sig, dg, w.pub, w.a);
    if (r != pk) fail("%s: the key recomputed from a signature differs from the generated one", pname(p));
    x.nontrivial = true; x.label("w=" + std::to_string(p.w)); x.sample = std::string(pname(p)) + " digest=" + hex(dg.data(), p.n, 8);
    auto differs = [&](const Buf &k, const char *what) { if (k == pk) fail("%s: the same key is recomputed after a change of the %s", pname(p), what); x.label(what); };
    for (int64_t op : c.lst("ops")) switch (op % 6) {
    case 0: { Buf d2 = dg; d2[b.below(p.n)] ^= 1 << b.below(8); differs(w.rec(sig, d2, w.pub, w.a), "digest"); break; }
    case 1: { Buf d2 = digest(b, p.n, (op / 6) % 6); if (d2 != dg) differs(w.rec(sig, d2, w.pub, w.a), "digest"); break; }
    case 2: { uint32_t t[8]; memcpy(t, w.a, 32); static const int wd[] = {0, 1, 2, 4}; t[wd[b.below(4)]] ^= 1u << b.below(32); differs(w.rec(sig, dg, w.pub, t), "address"); if (w.pkgen(t) == pk) fail("%s: two addresses have the same one-time key", pname(p)); break; }
    case 3: { Buf u = w.pub; u[b.below(p.n)] ^= 1 << b.below(8); differs(w.rec(sig, dg, u, w.a), "public seed"); break; }
    case 4: { Buf g = sig; g[b.below(w.len)] ^= 1 << b.below(8); differs(w.rec(g, dg, w.pub, w.a), "signature"); break; }
    default: { Buf g = sig; size_t i = b.below(p.len), j = b.below(p.len); if (i == j) break; for (unsigned k = 0; k < p.n; k++) std::swap(g[i * p.n + k], g[j * p.n + k]); differs(w.rec(g, dg, w.pub, w.a), "order of chains"); }
    }
}
// Positions of a signature's values in their chains, found by walking every chain from its start.
static std::vector<int> positions(const W &w, const Buf &start, const Buf &sig, Ctx &x) {
    std::vector<int> v(w.p.len, -1); Buf cur(w.p.n);
    for (unsigned i = 0; i < w.p.len; i++) {
        memcpy(cur.data(), &start[i * w.p.n], w.p.n);
        for (unsigned k = 0; k < w.p.w; k++) {
            if (!memcmp(cur.data(), &sig[i * w.p.n], w.p.n)) { v[i] = (int)k; break; }
            if (w.L.thash_f) { uint32_t t[8]; memcpy(t, w.a, 32); t[5] = i; t[6] = k; t[7] = 0; Buf o(w.p.n); w.L.thash_f(&w.q, o.data(), cur.data(), w.pub.data(), t); cur = o; }
            else ref::chain(w.p, cur.data(), cur.data(), k, 1, w.pub.data(), w.a, i);
        }
        if (v[i] < 0) { x.label("chain value not recognised"); return {}; }
    }
    return v;
}
static void put_digit(const ref::P &p, Buf &d, unsigned i, unsigned v) {
    unsigned bit = i * p.logw, sh = 8 - p.logw - bit % 8; d[bit / 8] = (u8)((d[bit / 8] & ~((p.w - 1) << sh)) | v << sh);
}
static unsigned digit(const ref::P &p, const Buf &d, unsigned i) { unsigned bit = i * p.logw; return d[bit / 8] >> (8 - p.logw - bit % 8) & (p.w - 1); }
static void incomparable(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); if (!have(L, x)) return;
    W w(L, c); const ref::P &p = w.p; Bytes b(c["cs"]);
    // starts of the chains: the model's, and where the library derives others, the signature of the all-zero digest holds them for the message part; the checksum part
    // of the all-one digest is zero (its checksum is 0)
    Buf z(p.n, 0), o(p.n, 0xff); Buf s0 = w.sign(z), s1 = w.sign(o), start = s0;
    memcpy(&start[p.len1 * p.n], &s1[p.len1 * p.n], p.len2 * p.n);
    Buf mstart = ref::wots_sk(p, w.sk.data(), w.pub.data(), w.a);
    auto find = [&](const Buf &sig) { Ctx y; auto v = positions(w, mstart, sig, y); return v.empty() ? positions(w, start, sig, x) : v; };
    Buf A = digest(b, p.n, c["dm"]), B = A;
    unsigned target = 0;
    switch (c["rel"]) {
    case 0: B = digest(b, p.n, (c["dm"] + 1) % 6); break;
    case 1: {   // one digit larger
        unsigned i = (unsigned)b.below(p.len1), v = digit(p, A, i); if (v + 1 < p.w) put_digit(p, B, i, v + 1 + (unsigned)b.below(p.w - 1 - v)); break; }
    default: {  // digits raised by an exact total, so that the checksums differ by a chosen amount (powers of w and of 2 among them)
        static const unsigned base[] = {1, 2, 3, 4, 8, 15, 16, 17, 32, 64, 128, 240, 255, 256, 257, 512, 768, 1024, 2048, 4096, 8192, 16320};
        target = base[b.below(sizeof base / sizeof *base)]; if (c["rel"] == 3) target = 1 + (unsigned)b.below(p.len1 * (p.w - 1));
        unsigned left = target; unsigned st = (unsigned)b.below(p.len1);
        for (unsigned k = 0; k < p.len1 && left; k++) { unsigned i = (st + k) % p.len1, v = digit(p, A, i), d = std::min(left, p.w - 1 - v); if (k % 3 == 0 && d > 1 && left < p.len1 * 2) d = 1 + (unsigned)b.below(d); put_digit(p, B, i, v + d); left -= d; }
        target -= left; }
    }
    if (A == B) return;
    auto pa = find(w.sign(A)), pb = find(w.sign(B));
    if (pa.empty() || pb.empty()) return;
    bool ab = false, ba = false;
    for (unsigned i = 0; i < p.len; i++) { if (pa[i] > pb[i]) ab = true; if (pb[i] > pa[i]) ba = true; }
    x.nontrivial = true; x.label("w=" + std::to_string(p.w)); if (c["rel"] >= 2) x.label("one digest dominates in the message digits");
    x.sample = std::string(pname(p)) + " A=" + hex(A.data(), p.n, 6) + " B=" + hex(B.data(), p.n, 6) + " checksum difference " + std::to_string(target);
    if (!ab || !ba) fail("%s: the signature of digest %s can be advanced to one of %s (no chain of the latter lies before the former's)", pname(p),
        (ab ? hex(B.data(), p.n, 64) : hex(A.data(), p.n, 64)).c_str(), (ab ? hex(A.data(), p.n, 64) : hex(B.data(), p.n, 64)).c_str());
}
// digests on a path from all-zero to all-one digits, each above the one before; the checksum chains of any lower one
// must have one beyond those of any higher one
static void ladder(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); if (!have(L, x)) return;
    W w(L, c); const ref::P &p = w.p; Bytes b(c["cs"]); Buf d(p.n, 0), start = ref::wots_sk(p, w.sk.data(), w.pub.data(), w.a);
    std::vector<std::vector<int>> rungs; std::vector<Buf> ds; uint64_t steps = 0, total = (uint64_t)p.len1 * (p.w - 1), stride = std::max<uint64_t>(1, total / c["rungs"]);
    std::vector<std::vector<Buf>> val(p.len2);          // values along the checksum chains
    for (unsigned i = 0; i < p.len2; i++) { Buf cur(&start[(p.len1 + i) * p.n], &start[(p.len1 + i) * p.n] + p.n); for (unsigned k = 0; k < p.w; k++) { val[i].push_back(cur); ref::chain(p, cur.data(), cur.data(), k, 1, w.pub.data(), w.a, p.len1 + i); } }
    std::vector<unsigned> open; for (unsigned i = 0; i < p.len1; i++) open.push_back(i);
    for (;;) {
        if (steps % stride == 0 || steps + 2 >= total || steps < 2) {
            Buf g = w.sign(d); std::vector<int> r;
            for (unsigned i = 0; i < p.len2; i++) { auto it = std::find(val[i].begin(), val[i].end(), Buf(&g[(p.len1 + i) * p.n], &g[(p.len1 + i) * p.n] + p.n)); if (it == val[i].end()) { x.label("chain value not recognised"); return; } r.push_back((int)(it - val[i].begin())); }
            for (size_t j = 0; j < rungs.size(); j++) {
                bool ok = false; for (unsigned i = 0; i < p.len2; i++) if (rungs[j][i] > r[i]) ok = true;
                if (!ok) fail("%s: the signature of digest %s can be advanced to one of %s", pname(p), hex(ds[j].data(), p.n, 64).c_str(), hex(d.data(), p.n, 64).c_str());
            }
            rungs.push_back(r); ds.push_back(d);
        }
        if (open.empty()) break;
        size_t k = c["mode"] == 0 ? b.below(open.size()) : c["mode"] == 1 ? 0 : open.size() - 1; unsigned i = open[k], dv = digit(p, d, i); put_digit(p, d, i, dv + 1); steps++;
        if (dv + 2 == p.w) open.erase(open.begin() + k);
    }
    x.nontrivial = true; x.label("digests", rungs.size()); x.label("pairs", rungs.size() * (rungs.size() - 1) / 2); x.sample = std::string(pname(p)) + " digests=" + std::to_string(rungs.size());
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    Field dm = num("dm", {{4, 0, 0}, {5, 1, 5}}), am = num("am", 0, 1);
    std::vector<Fixed> all; for (int g = 0; g < 7; g++) for (int wi = 0; wi < 3; wi++) all.push_back({{"g", g}, {"wi", wi}});
    std::vector<Fixed> cheap; for (auto &f : all) if (f["wi"] < 2) cheap.push_back(f);
    v.push_back({"roundtrip", {seed("s"), seed("cs"), dm, am, list("ops", 8, {{1, 0, 35}})}, all, T ? 2000 : 50, 5, roundtrip}); v.back().max_shrinks = 60;
    v.back().rule = "key from signature equals the generated key, and differs after generated changes of digest, address, public seed or signature";
    v.push_back({"incomparable", {seed("s"), seed("cs"), dm, am, num("rel", {{1, 0, 0}, {1, 1, 1}, {3, 2, 2}, {2, 3, 3}})}, all, T ? 1500 : 40, 4, incomparable}); v.back().max_shrinks = 60;
    v.back().rule = "two digests, often one dominating the other with a chosen checksum difference; positions in the chains must be incomparable; non-trivial: digests differ";
    v.push_back({"incomparable-sha", {seed("s"), seed("cs"), dm, num("rel", {{1, 0, 1}, {2, 2, 2}, {2, 3, 3}}), num("am", 1, 1)}, {{{"g", 0}, {"wi", 0}}, {{"g", 4}, {"wi", 0}}, {{"g", 0}, {"wi", 1}}, {{"g", 4}, {"wi", 1}}, {{"g", 1}, {"wi", 0}}, {{"g", 1}, {"wi", 1}}}, T ? 8000 : 700, 25, incomparable}); v.back().max_shrinks = 60;
    v.back().rule = "more of the same for the cheap functions";
    v.push_back({"ladder", {seed("s"), seed("cs"), num("am", 1, 1), num("mode", 0, 2), num("rungs", T ? 100000 : 1000, T ? 100000 : 1000)}, cheap, T ? 3 : 1, 1, ladder}); v.back().max_shrinks = 6;
    v.back().rule = "a path of digests from the lowest to the highest with every checksum value; all pairs must be incomparable";
    std::vector<Fixed> big; for (auto &f : all) if (f["wi"] == 2) big.push_back(f);
    v.push_back({"ladder-256", {seed("s"), seed("cs"), num("am", 1, 1), num("mode", 0, 2), num("rungs", T ? 2000 : 60, T ? 2000 : 60)}, big, 1, 1, ladder}); v.back().max_shrinks = 6;
    v.back().rule = "the same for w=256 with a sample of the checksum values";
    return v;
}
