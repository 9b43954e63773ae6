// C04: bytes of hashes, WOTS+, keys and signatures equal the independent model of RFC 8391 / SP 800-208.
#include "lib.hpp"
#include <cstring>
using namespace eng; using namespace lib;

static ref::P group(int64_t g, int64_t wi) {
    static const struct { int f; unsigned n; } t[] = {{0, 32}, {0, 64}, {1, 32}, {2, 64}, {0, 24}, {2, 32}, {2, 24}};
    static const unsigned w[] = {16, 4, 256};
    return ref::make(t[g].f, t[g].n, w[wi], 10, 1);
}
static void same(const char *what, const ref::P &p, const void *a, const void *b, size_t n) {
    if (!n || !memcmp(a, b, n)) return;
    size_t i = 0; while (((const u8 *)a)[i] == ((const u8 *)b)[i]) i++;
    fail("%s %s: byte %zu of %zu is %02x, the standard gives %02x", pname(p), what, i, n, ((const u8 *)a)[i], ((const u8 *)b)[i]);
}
static void rand_addr(uint32_t a[8], Bytes &b, int64_t am) {
    for (int i = 0; i < 8; i++) { uint64_t r = b.next(); a[i] = am == 0 ? (uint32_t)r : am == 1 ? (uint32_t)(r % 4) : (uint32_t)(r >> (r >> 59)); }
}

static void prims(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); ref::P p = group(c["g"], 0); xmss_params q = lib_params(L, p); unsigned n = p.n;
    Bytes b(c["s"]); Buf k = b.get(n), in = b.get(2 * n), want(n), got(n); uint32_t a[8], a2[8]; rand_addr(a, b, c["am"]);
    if (c["edge"] == 1) std::fill(in.begin(), in.end(), 0xff);
    if (c["edge"] == 2) std::fill(k.begin(), k.end(), 0);
    x.nontrivial = true;
    switch (c["f"]) {
    case 0: {
        if (!L.prf) { x.skipped = true; return; }
        Buf i32 = b.get(32);
        ref::prf(p, want.data(), i32.data(), k.data()); L.prf(&q, got.data(), i32.data(), k.data()); same("prf", p, got.data(), want.data(), n); x.label("prf"); break; }
    case 1: {
        if (!L.prf_keygen) { x.skipped = true; return; }
        Buf i2(in.begin(), in.begin() + n); for (int i = 0; i < 8; i++) { u8 t[4]; ref::to_bytes(t, 4, a[i]); i2.insert(i2.end(), t, t + 4); }
        ref::prf_keygen(p, want.data(), in.data(), a, k.data()); L.prf_keygen(&q, got.data(), i2.data(), k.data()); same("prf_keygen", p, got.data(), want.data(), n); x.label("prf_keygen"); break; }
    case 2: {
        if (!L.thash_f) { x.skipped = true; return; }
        ref::F(p, want.data(), in.data(), k.data(), a); memcpy(a2, a, 32);
        L.thash_f(&q, got.data(), in.data(), k.data(), a2); same("F", p, got.data(), want.data(), n); x.label("F"); break; }
    default: {
        if (!L.thash_h) { x.skipped = true; return; }
        ref::H(p, want.data(), in.data(), in.data() + n, k.data(), a); memcpy(a2, a, 32);
        if (c["edge"] == 3) { Buf io = in; L.thash_h(&q, io.data(), io.data(), k.data(), a2); same("H (in place)", p, io.data(), want.data(), n); }
        else { L.thash_h(&q, got.data(), in.data(), k.data(), a2); same("H", p, got.data(), want.data(), n); } x.label("H"); break; }
    }
}
static void hmsg(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); ref::P p = group(c["g"], 0); xmss_params q = lib_params(L, p); unsigned n = p.n;
    if (!L.hash_message) { x.skipped = true; return; }
    Bytes b(c["s"]); Buf R = b.get(n), root = b.get(n), m = message(c), want(n), got(n);
    uint64_t idx = b.next() >> c["sh"];
    Buf buf(p.pad + 3 * n); buf.insert(buf.end(), m.begin(), m.end());
    ref::hmsg(p, want.data(), R.data(), root.data(), idx, m.data(), m.size());
    L.hash_message(&q, got.data(), R.data(), root.data(), idx, buf.data(), m.size());
    same("H_msg", p, got.data(), want.data(), n);
    x.nontrivial = !m.empty(); x.label(m.size() < 64 ? "short" : m.size() < 300 ? "medium" : "long");
}
static void wots(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); ref::P p = group(c["g"], c["wi"]); xmss_params q = lib_params(L, p); unsigned n = p.n;
    if (!L.wots_pkgen || !L.wots_sign || !L.wots_pk_from_sig) { x.skipped = true; return; }
    Bytes b(c["s"]); Buf sk = b.get(n), pub = b.get(n), dg = b.get(n); uint32_t a[8], t[8]; rand_addr(a, b, c["am"]);
    a[3] = 0; a[5] = a[6] = a[7] = 0;
    if (c["dm"] == 1) std::fill(dg.begin(), dg.end(), 0); else if (c["dm"] == 2) std::fill(dg.begin(), dg.end(), 0xff);
    else if (c["dm"] == 3) for (unsigned i = 0; i < n; i++) dg[i] = i < n / 2 ? 0 : dg[i];
    size_t L_ = p.len * n; Buf o(L_);
    // what an address held in its lower words before must not matter
    memcpy(t, a, 32); t[5] = 3; t[6] = 9; t[7] = 1; L.wots_pkgen(&q, o.data(), sk.data(), pub.data(), t); same("WOTS+ public key", p, o.data(), ref::wots_pk(p, sk.data(), pub.data(), a).data(), L_);
    Buf sig = ref::wots_sig(p, dg.data(), sk.data(), pub.data(), a);
    memcpy(t, a, 32); t[6] = 5; L.wots_sign(&q, o.data(), dg.data(), sk.data(), pub.data(), t); same("WOTS+ signature", p, o.data(), sig.data(), L_);
    if (c["dm"] == 4) sig[b.below(L_)] ^= 1 << b.below(8);
    memcpy(t, a, 32); L.wots_pk_from_sig(&q, o.data(), sig.data(), dg.data(), pub.data(), t);
    same("WOTS+ key from signature", p, o.data(), ref::wots_pk_from_sig(p, sig.data(), dg.data(), pub.data(), a).data(), L_);
    x.nontrivial = true; x.label("w=" + std::to_string(p.w));
}

// Shapes with custom parameters (real hashing, small trees).
static const struct { int f; unsigned n, w, h, d; } small_shapes[] = {
    {0, 32, 16, 6, 3}, {0, 32, 4, 4, 1}, {0, 32, 256, 6, 2}, {1, 32, 16, 4, 2}, {2, 64, 16, 6, 3}, {0, 64, 16, 6, 2}, {0, 24, 16, 8, 2},
    {2, 32, 16, 6, 2}, {2, 24, 4, 6, 3}, {0, 24, 256, 9, 3}, {0, 32, 16, 56, 28}, {0, 24, 16, 63, 21}, {2, 24, 16, 33, 11}, {0, 64, 4, 12, 6}};
static ref::P small(int64_t i) { auto &s = small_shapes[i]; return ref::make(s.f, s.n, s.w, s.h, s.d); }

static void sign_at(const Api &a, const Case &c, Ctx &x, bool prefix_only = false) {
    (void)prefix_only;
    ref::Key &k = cached_key(a.p, c["ks"]);
    uint64_t idx = pick_index(a.p, c); Buf m = message(c);
    KeyPair kp = plain_key(a, k, idx); Buf before = kp.sk;
    Buf sm(a.sig + m.size()); ull n = 0;
    int r = a.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
    if (r) fail("%s: signing at index %llu returns %d", pname(a.p), (ull)idx, r);
    if (n != sm.size()) fail("%s: length %llu instead of %zu", pname(a.p), n, sm.size());
    Buf want = k.sign(idx, m.data(), m.size());
    same("signature", a.p, sm.data(), want.data(), want.size());
    same("message", a.p, sm.data() + a.sig, m.data(), m.size());
    x.nontrivial = idx != 0; x.label("crossings " + std::to_string(crossings(a.p, idx)));
    if (idx >> 32) x.label("index above 32 bits");
    if ((idx >> a.p.th) >> 32) x.label("tree address above 32 bits");
    x.sample = std::string(pname(a.p)) + " idx=" + std::to_string(idx);
}
static void sign_oid(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); sign_at(api(L, ref::standard()[c["ps"]]), c, x);
}
static void sign_mock(const Case &c, Ctx &x) {
    const Lib &L = get("mockbasic"); if (!L.mock_ok) { x.skipped = true; return; }
    sign_at(api(L, ref::standard()[c["ps"]]), c, x);
}
static void sign_small(const Case &c, Ctx &x) { sign_at(api(get("basic"), small(c["sh"])), c, x); }

// Key generation and the first signatures of a key made by the library, plain or fast.
static void from_keygen(const Api &a, const Case &c, Ctx &x, uint64_t nsig) {
    KeyPair kp = make_key(a, c["ks"]);
    ref::Key k = model_of(a, kp.sk.data());
    const Buf &root = k.compute_root();
    same("root in the public key", a.p, kp.pk.data() + a.off, root.data(), a.p.n);
    same("root in the secret key", a.p, kp.sk.data() + a.off + a.p.idxb + 2 * a.p.n, root.data(), a.p.n);
    if (nsig > last_index(a.p) + 1) nsig = last_index(a.p) + 1;
    for (uint64_t i = 0; i < nsig; i++) {
        Buf m = Bytes(mix(c["ks"], i)).get((i * 7) % 90); Buf sm(a.sig + m.size()); ull n = 0;
        int r = a.sign(kp.sk.data(), sm.data(), &n, m.data(), m.size());
        if (r || n != sm.size()) fail("%s: signature %llu: status %d, length %llu", pname(a.p), (ull)i, r, n);
        Buf want = k.sign(i, m.data(), m.size());
        char what[64]; snprintf(what, sizeof what, "signature %llu", (ull)i);
        same(what, a.p, sm.data(), want.data(), want.size());
        same("message", a.p, sm.data() + a.sig, m.data(), m.size());
        x.label("signatures"); if (crossings(a.p, i)) x.label("subtree ends");
    }
    x.nontrivial = nsig > 0; x.sample = std::string(pname(a.p)) + " signatures=" + std::to_string(nsig);
}
static void key_oid(const Case &c, Ctx &x) { from_keygen(api(get(c["fast"] ? "fast" : "basic"), ref::standard()[c["ps"]]), c, x, c["fast"] ? c["cnt"] : std::min<int64_t>(c["cnt"], 2)); }
static void key_small(const Case &c, Ctx &x) { from_keygen(api(get(c["fast"] ? "fast" : "basic"), small(c["sh"])), c, x, c["cnt"]); }
static void key_mock(const Case &c, Ctx &x) {
    const Lib &L = get(c["fast"] ? "mockfast" : "mockbasic"); if (!L.mock_ok) { x.skipped = true; return; }
    from_keygen(api(L, ref::standard()[c["ps"]]), c, x, c["fast"] ? c["cnt"] : 1);
}

static std::vector<Fixed> by_th(std::initializer_list<unsigned> ths, bool both = false) {
    std::vector<Fixed> v; auto &s = ref::standard();
    for (size_t i = 0; i < s.size(); i++) for (unsigned t : ths) if (s[i].th == t) { if (both) { v.push_back({{"ps", (int64_t)i}, {"fast", 0}}); v.push_back({{"ps", (int64_t)i}, {"fast", 1}}); } else v.push_back({{"ps", (int64_t)i}}); }
    return v;
}
static std::vector<Fixed> grid(const char *a, int na, const char *b = nullptr, int nb = 1) {
    std::vector<Fixed> v;
    for (int i = 0; i < na; i++) for (int j = 0; j < nb; j++) { Fixed f{{a, i}}; if (b) f[b] = j; v.push_back(f); }
    return v;
}
template <class... T> static std::vector<Field> cat(std::vector<Field> a, const std::vector<Field> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// sets with subtree height 5; in the quick tier the most expensive (n=64, 12 layers) are left to the mock stages
static std::vector<Fixed> th5() {
    std::vector<Fixed> v; auto &s = ref::standard();
    for (size_t i = 0; i < s.size(); i++) if (s[i].th == 5 && (opt.thorough || s[i].n < 64 || s[i].d < 12)) v.push_back({{"ps", (int64_t)i}});
    return v;
}
static std::vector<Fixed> high(bool thorough) {
    std::vector<Fixed> v; auto &s = ref::standard();
    for (size_t i = 0; i < s.size(); i++)
        if (s[i].th == 16 || (s[i].th == 20 && (thorough || (s[i].func == 0 && s[i].n == 24 && s[i].d < 3)))) v.insert(s[i].th == 20 ? v.begin() : v.end(), {{"ps", (int64_t)i}});
    return v;
}
// one cheap th=10 set per hash group for real hashing in the quick tier
static std::vector<Fixed> th10_sample(bool thorough) {
    if (thorough) return by_th({10});
    std::vector<Fixed> v; auto &s = ref::standard();
    for (size_t i = 0; i < s.size(); i++) if (s[i].th == 10 && ((s[i].d == 1 && s[i].func == 0 && s[i].n < 64) || (s[i].h == 40 && s[i].func == 0 && s[i].n == 32))) v.push_back({{"ps", (int64_t)i}});
    return v;
}

void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    const int NS = sizeof small_shapes / sizeof *small_shapes;
    v.push_back({"prims", {seed("s"), num("am", 0, 2), num("edge", 0, 3)}, [] { std::vector<Fixed> f; for (int g = 0; g < 7; g++) for (int i = 0; i < 4; i++) f.push_back({{"g", g}, {"f", i}}); return f; }(), T ? 20000 : 2000, 500, prims});
    v.back().rule = "PRF, PRF_keygen, F, H on generated keys, inputs and addresses; every case counts";
    v.push_back({"hmsg", cat(message_fields(T ? 100000 : 5000), {seed("s"), num("sh", 0, 63)}), grid("g", 7), T ? 20000 : 1500, 250, hmsg});
    v.back().rule = "message hash with generated randomizer, root, 64-bit index and message; non-trivial: message not empty";
    v.push_back({"wots", {seed("s"), num("am", 0, 2), num("dm", 0, 4)}, grid("g", 7, "wi", 3), T ? 1500 : 12, 4, wots});
    v.back().rule = "WOTS+ key, signature and recomputation for w=4,16,256, addresses with any bits; every case counts";
    v.push_back({"key-small", {seed("ks"), num("cnt", {{3, 1, 20}, {1, 20, T ? 70 : 34}})}, grid("sh", NS, "fast", 2), T ? 40 : 2, 1, key_small});
    v.back().rule = "library-made key with a small custom shape: root and the first signatures; every case counts";
    v.push_back({"sign-small", cat(cat(index_fields(), message_fields()), {num("ks", 0, 3)}), grid("sh", NS), T ? 400 : 20, 5, sign_small});
    v.back().rule = "plain signer at a generated index (56 and 63 bit indices included), all bytes; non-trivial: index > 0";
    v.push_back({"sign-th5", cat(cat(index_fields(), message_fields()), {num("ks", 0, 1)}), th5(), T ? 60 : 2, T ? 10 : 1, sign_oid});
    v.back().rule = "plain signer at a generated index, real hashing, standard sets with subtree height 5; non-trivial: index > 0";
    v.push_back({"key-th5", {num("ks", 0, 1 << 30), num("cnt", {{2, 1, 8}, {T ? 2 : 0, 30, 40}})}, by_th({5}, true), T ? 4 : 1, 1, key_oid});
    v.back().rule = "library-made keys of the sets with subtree height 5, first signatures; every case counts";
    v.push_back({"mock-sign", cat(cat(index_fields(), message_fields()), {num("ks", 0, 1)}), by_th({5, 10}), T ? 200 : 10, T ? 20 : 5, sign_mock});
    v.back().rule = "plain signer with WOTS+ and tree hash replaced by cheap functions on both sides: index, address and layout discipline for all 1024- and 32-leaf sets";
    v.push_back({"mock-sign-high", cat(cat(index_fields(), message_fields()), {num("ks", 0, 0)}), high(T), T ? 4 : 1, 1, sign_mock});
    v.back().rule = "the same for subtree heights 16 and 20";
    v.push_back({"mock-key", {num("ks", 0, 1 << 30), num("cnt", 1, 40)}, by_th({5, 10, 16}, true), T ? 4 : 1, 1, key_mock});
    v.back().rule = "library-made keys with the cheap functions, all standard sets with subtree height up to 16";
    v.push_back({"sign-th10", cat(cat(index_fields(), message_fields()), {num("ks", 0, 0)}), th10_sample(T), 1, 1, sign_oid});
    v.back().rule = "plain signer at a generated index, real hashing, standard sets with subtree height 10";
    if (T) {
        v.push_back({"key-th10", {num("ks", 0, 1 << 30), num("cnt", 1, 20)}, by_th({10}, true), 1, 1, key_oid});
        v.back().rule = "library-made keys of the sets with subtree height 10";
        std::vector<Fixed> big; auto &s = ref::standard();
        for (size_t i = 0; i < s.size(); i++) if (!s[i].mt && s[i].th == 16 && s[i].func == 0 && s[i].n < 64) big.push_back({{"ps", (int64_t)i}});
        v.push_back({"sign-th16", cat(cat(index_fields(), message_fields()), {num("ks", 0, 0)}), big, 1, 1, sign_oid});
        v.back().rule = "plain signer, real hashing, subtree height 16"; v.back().hang_s = 1200;
    }
    return v;
}
