// C17: messages of any size are signed and verified in full, beyond 4 GiB too.
#include "shapes.hpp"
#include <cstring>
#include <memory>
#include <sys/mman.h>
using namespace eng; using namespace lib; using namespace shapes;

static const Api &small_api(const Case &c) {                              // h=3 keys per hash group
    static std::map<int, Api> m; int id = (int)(c["g"] * 2 + c["fast"]); auto it = m.find(id); if (it != m.end()) return it->second;
    Case d = c; d.v["th"] = {3}; d.v["d"] = {1}; d.v["k"] = {1}; d.v.erase("wi"); ref::P p = params(d, (unsigned)c["g"]);
    return m[id] = api(get(c["fast"] ? "fast" : "basic"), p);
}
struct Kept { KeyPair kp; std::unique_ptr<ref::Key> model; };
static Kept &key(const Api &a, uint64_t seed) {
    static std::map<std::string, Kept> m; char id[200]; snprintf(id, sizeof id, "%s/%s/%llu", a.L->name.c_str(), pname(a.p), (ull)seed);
    auto it = m.find(id); if (it != m.end()) return it->second;
    if (m.size() > 200) m.clear();
    Kept k; k.kp = make_key(a, seed); k.model = std::make_unique<ref::Key>(model_of(a, k.kp.sk.data())); k.model->compute_root(); return m[id] = std::move(k);
}
static void fill(u8 *p, size_t n, int how, uint64_t s) {
    if (!n) return;
    if (how == 1) memset(p, 0, n); else if (how == 2) memset(p, 0xff, n); else if (how == 3) { memset(p, 0, n); p[n - 1] = 1; } else Bytes(s).fill(p, n);
}
static int verify(const Api &a, const Kept &k, const Buf &sm, Buf &m, ull &ml) { m.assign(sm.size(), 0x3c); ml = 77; return a.open(m.data(), &ml, sm.data(), sm.size(), k.kp.pk.data()); }
// one length: signature bytes against the model, verification, and changes the digest has to notice
static void one(const Case &c, const Api &a, size_t n, int how, uint64_t s, Ctx &x) {
    Kept &k = key(a, c.v.count("ks") ? c["ks"] : 1); Buf msg(n); fill(msg.data(), n, how, s);
    Buf sk = k.kp.sk, sm(a.sig + n, 0x55), m; ull len = 0, ml;
    int r = a.sign(sk.data(), sm.data(), &len, msg.data(), n);
    if (r) fail("%s: signing %zu bytes returns %d", pname(a.p), n, r);
    if (len != sm.size()) fail("%s: signing %zu bytes: length %llu instead of %zu", pname(a.p), n, len, sm.size());
    Buf want = k.model->prefix(0, msg.data(), n);
    if (memcmp(sm.data(), want.data(), want.size())) fail("%s: signature of %zu bytes is not the one over the whole message", pname(a.p), n);
    if (n && memcmp(&sm[a.sig], msg.data(), n)) fail("%s: signed message of %zu bytes differs from the message", pname(a.p), n);
    if (verify(a, k, sm, m, ml)) fail("%s: message of %zu bytes does not verify", pname(a.p), n);
    if (ml != n || (n && memcmp(m.data(), msg.data(), n))) fail("%s: message of %zu bytes: verification gives %llu bytes or other ones", pname(a.p), n, ml);
    Bytes b(mix(s, n));
    auto rejected = [&](const Buf &t, const char *what) {
        if (!verify(a, k, t, m, ml)) fail("%s: message of %zu bytes also verifies with %s", pname(a.p), n, what);
        if (ml) fail("%s: message of %zu bytes with %s: length %llu is reported", pname(a.p), n, what, ml);
    };
    int tries = c.v.count("len") ? 1 : 3;
    for (int i = 0; i < tries && n; i++) { size_t at = i == 0 ? b.below(n) : i == 1 ? n - 1 - b.below(std::min<size_t>(n, 200)) : b.below(std::min<size_t>(n, 200)); char w[60]; snprintf(w, sizeof w, "byte %zu changed", at); Buf t = sm; t[a.sig + at] ^= 1 << b.below(8); rejected(t, w); }
    { Buf t = sm; t.push_back(b.below(2) ? 0 : 0x80); rejected(t, "a byte appended"); }
    if (n) { Buf t = sm; t.pop_back(); rejected(t, "the last byte cut off"); }
}
static void grid_(const Case &c, Ctx &x) {
    const Api &a = small_api(c); size_t lo = (size_t)c["len"] * 16;
    for (size_t n = lo; n < lo + 16; n++) one(c, a, n, (int)(n % 3 ? 0 : c["how"]), mix(c["s"], n), x);
    x.nontrivial = true; x.label("lengths", 16); x.sample = std::string(pname(a.p)) + " lengths " + std::to_string(lo) + ".." + std::to_string(lo + 15);
}
static size_t length(const Case &c, unsigned pre) {
    uint64_t v = c["v"], big = opt.thorough ? 26 : 21; static const unsigned blocks[] = {64, 128, 136, 168, 4096, 65536}; size_t n;
    switch (c["lm"]) {
    case 0: n = blocks[v % 6] * (v / 6 % (v % 6 < 4 ? 300 : 8)) + 8; n = n + (v >> 20) % 17 >= pre % 64 + 16 ? n + (v >> 20) % 17 - 16 : n; break;
    case 1: n = ((size_t)1 << v % big) + (v >> 20) % 9; n = n >= 4 ? n - 4 : n; break;
    case 2: { size_t t = ((size_t)1 << (8 + v % (big - 8))); n = t - pre + (v >> 20) % 5; if (n > t + 8) n = t; break; }      // the prefixed message around a power of two
    case 3: { size_t t = blocks[v % 6] * (v / 6 % 40 + 4); size_t q = (v >> 20) % 20; n = t + q > pre + 10 ? t + q - pre - 10 : t; break; }   // and around whole blocks, length field included
    default: n = v % ((size_t)1 << (10 + (v >> 30) % (big - 10)));
    }
    return n;
}
static void gen(const Case &c, Ctx &x) {
    Api a; if (c.v.count("ps")) a = api(get(c["fast"] ? "fast" : "basic"), ref::standard()[c["ps"]]); else a = small_api(c);
    size_t n = length(c, a.p.pad + 3 * a.p.n); one(c, a, n, (int)c["how"], c["s"], x);
    x.nontrivial = n > 32; x.label(n < 1000 ? "below 1000 bytes" : n < 65536 ? "below 64 KiB" : n < 1 << 20 ? "below 1 MiB" : "1 MiB and more"); x.sample = std::string(pname(a.p)) + " mlen=" + std::to_string(n);
}
// ---- huge
static size_t huge_len(const Case &c, size_t extra) {                      // off 0..: just above; 1: only the whole with `extra` is above; 2: anywhere in the second 4 GiB
    size_t t = (size_t)1 << c["bits"]; uint64_t v = c["v"];
    switch (c["off"]) { case 0: return t + v % 5000; case 1: return t - 1 - v % (extra - 1); default: return t + 5000 + v % (t >> 3); }
}
static bool memory_for(double gb) { FILE *f = fopen("/proc/meminfo", "r"); char l[200]; double av = 0; while (f && fgets(l, sizeof l, f)) { long k; if (sscanf(l, "MemAvailable: %ld kB", &k) == 1) av = k / 1048576.0; } if (f) fclose(f); return av > gb; }
static const size_t BLOCK = 16 << 20, ENDS = 1 << 20;
// repeating content, with content of its own at both ends
static void paint(Repeat &r, uint64_t s) { Bytes b(s); b.fill(r.p + ENDS, BLOCK); b.fill(r.p, ENDS); b.fill(r.p + r.n - ENDS / 2, ENDS / 2); }
static void huge_hash(const Case &c, Ctx &x) {
    const Lib &L = get("basic"); if (!L.hash_message) { x.skipped = true; return; }
    Case d = c; d.v["th"] = {3}; d.v["d"] = {1}; d.v["k"] = {0}; ref::P p = params(d, (unsigned)c["g"]); xmss_params q = lib_params(L, p);
    size_t pre = p.pad + 3 * p.n, n = huge_len(c, pre); Repeat m(n + pre, BLOCK, ENDS); paint(m, c["s"]);
    Bytes b(mix(c["s"], 5)); Buf R = b.get(p.n), root = b.get(p.n), got(p.n), want(p.n); uint64_t idx = b.next() >> 4;
    ref::hmsg(p, want.data(), R.data(), root.data(), idx, m.p + pre, n);
    L.hash_message(&q, got.data(), R.data(), root.data(), idx, m.p, n);
    if (got != want) fail("%s: digest of a message of %zu bytes is not the one over the whole message", pname(p), n);
    x.nontrivial = true; x.sample = std::string(pname(p)) + " mlen=" + std::to_string(n);
}
struct Big {                                                              // memory of its own
    u8 *p; size_t n;
    explicit Big(size_t n_) : n(n_) { p = (u8 *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { fprintf(stderr, "no memory\n"); exit(3); } madvise(p, n, MADV_HUGEPAGE); }
    ~Big() { munmap(p, n); }
    Big(const Big &) = delete;
};
static bool zero(const u8 *p, size_t n) { return !n || (p[0] == 0 && !memcmp(p, p + 1, n - 1)); }
static void huge_sign(const Case &c, Ctx &x) {
    if (!memory_for(opt.args.count("low") ? 0 : 14)) { x.skipped = true; x.label("not enough memory"); return; }
    Api a = api(get(c["fast"] ? "fast" : "basic"), ref::standard()[c["ps"]]); Kept &k = key(a, c["ks"]);
    size_t n = huge_len(c, a.sig); Repeat msg(n, BLOCK, ENDS); paint(msg, c["s"]); mprotect(msg.p, (n + 4095) / 4096 * 4096, PROT_READ);
    Buf sk = k.kp.sk; ull len = 3, ml = 4; Big sm(a.sig + n), m(a.sig + n);
    int r = a.sign(sk.data(), sm.p, &len, msg.p, n);
    if (r) fail("%s: signing %zu bytes returns %d", pname(a.p), n, r);
    if (len != a.sig + n) fail("%s: signing %zu bytes: length %llu instead of %zu", pname(a.p), n, len, a.sig + n);
    Buf want = k.model->prefix(0, msg.p, n);
    if (memcmp(sm.p, want.data(), want.size())) fail("%s: signature of %zu bytes is not the one over the whole message", pname(a.p), n);
    if (memcmp(sm.p + a.sig, msg.p, n)) fail("%s: signed message of %zu bytes differs from the message", pname(a.p), n);
    r = a.open(m.p, &ml, sm.p, a.sig + n, k.kp.pk.data());
    if (r) fail("%s: message of %zu bytes does not verify", pname(a.p), n);
    if (ml != n) fail("%s: message of %zu bytes: verification reports %llu", pname(a.p), n, ml);
    if (memcmp(m.p, msg.p, n)) fail("%s: message of %zu bytes: verification gives another message", pname(a.p), n);
    size_t at = c["at"] == 0 ? n - 1 - (uint64_t)c["v"] % 4000 : c["at"] == 1 ? (uint64_t)c["v"] * 977 % n : (uint64_t)c["v"] % 4000; sm.p[a.sig + at] ^= 0x10; ml = 9;
    r = a.open(m.p, &ml, sm.p, a.sig + n, k.kp.pk.data());
    if (!r) fail("%s: message of %zu bytes also verifies with byte %zu changed", pname(a.p), n, at);
    if (ml) fail("%s: rejected message of %zu bytes: length %llu is reported", pname(a.p), n, ml);
    if (!zero(m.p, n)) fail("%s: rejected message of %zu bytes: the message area is not zero", pname(a.p), n);
    sm.p[a.sig + at] ^= 0x10;
    size_t cut = (a.sig + n) & 0xffffffffu; if (cut > a.sig && cut < a.sig + n && !a.open(m.p, &ml, sm.p, cut, k.kp.pk.data())) fail("%s: message of %zu bytes also verifies cut to the lower 32 bits of its length", pname(a.p), n);
    x.nontrivial = true; x.sample = std::string(pname(a.p)) + (c["fast"] ? " fast" : " plain") + " mlen=" + std::to_string(n) + " changed byte " + std::to_string(at);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto at = [](const char *name) { auto &s = ref::standard(); for (size_t i = 0; i < s.size(); i++) if (s[i].name == name) return (int64_t)i; abort(); };
    Field big = num("v", 0, 1LL << 40), how = num("how", {{4, 0, 0}, {2, 1, 3}}), fast = num("fast", 0, 1);
    std::vector<Fixed> hs; int i = 0;
    for (const char *n : T ? std::vector<const char *>{"XMSS-SHA2_10_192", "XMSSMT-SHA2_20/4_192", "XMSSMT-SHAKE_20/4_256", "XMSSMT-SHA2_20/4_512", "XMSSMT-SHAKE256_20/4_192"} : std::vector<const char *>{"XMSSMT-SHA2_20/4_192", "XMSS-SHA2_10_192"})
        for (int f : {0, 1}) { int64_t ps = at(n); for (int o = 0; o < (T ? 3 : 1); o++) for (int bits : T ? std::vector<int>{31, 32} : std::vector<int>{32}) hs.push_back({{"ps", ps}, {"fast", f}, {"bits", bits}, {"off", T ? o : i % 2}}); i += f ? 0 : 1; }
    v.push_back({"huge-sign", {seed("s"), big, num("ks", 0, 1 << 20), num("at", 0, 2)}, hs, 1, 1, huge_sign}); v.back().workers = 2; v.back().max_shrinks = 1; v.back().hang_s = T ? 900 : 400;
    v.back().rule = "standard sets, messages around and beyond 2^32 (2^31) bytes: signature against the model, verification, changed byte, truncated length; non-trivial: every one";
    std::vector<Fixed> hh; for (int b : T ? std::vector<int>{33, 32, 31} : std::vector<int>{32}) for (int g : {3, 5, 6, 2, 1, 0, 4}) for (int o = 0; o < (T ? 3 : 1); o++) hh.push_back({{"g", g}, {"bits", b}, {"off", T ? o : (g + 1) % 2}});
    v.push_back({"huge-hash", {seed("s"), big}, hh, 1, 1, huge_hash}); v.back().workers = T ? 8 : 6; v.back().max_shrinks = 1; v.back().hang_s = T ? 900 : 400;
    v.back().rule = "message hash of every hash function over more than 2^32 bytes (or just below, so that only the prefixed message is) against the model";
    std::vector<Fixed> gr; for (int g = 0; g < 7; g++) for (int f = 0; f < 2; f++) for (int l = 0; l < (T ? 80 : 22); l++) gr.push_back({{"g", g}, {"fast", f}, {"len", l}});
    v.push_back({"grid", {seed("s"), how}, gr, 1, 1, grid_}); v.back().max_shrinks = 30;
    v.back().rule = "every message length from 0 to 351 (1279): signature against the model, verification, changed, extended and cut messages";
    std::vector<Fixed> ge; for (int g = 0; g < 7; g++) for (int l = 0; l < 5; l++) ge.push_back({{"g", g}, {"lm", l}});
    v.push_back({"gen", {seed("s"), how, fast, big, num("ks", 0, 2)}, ge, T ? 400 : 16, 4, gen}); v.back().max_shrinks = 100;
    v.back().rule = "generated lengths around powers of two and block multiples, with and without the hash prefix, up to 2 MiB (64 MiB); non-trivial: longer than 32 bytes";
    std::vector<Fixed> go; for (auto &f : pick([&](const ref::P &p) { return p.th == 5 && p.h == 20 && (T || p.n < 64); }, {0, 1})) for (int l = 0; l < 5; l++) { auto g = f; g["lm"] = l; go.push_back(g); }
    v.push_back({"gen-oid", {seed("s"), how, big, num("ks", 0, 0)}, go, T ? 40 : 1, 1, gen}); v.back().max_shrinks = 30;
    v.back().rule = "the same through the standard identifiers";
    return v;
}
