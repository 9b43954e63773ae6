// C09: SHAKE128/256 against OpenSSL for all lengths, exact writes and reads, prefixes.
#include "shapes.hpp"
#include <cstring>
#include <openssl/evp.h>
using namespace eng; using namespace lib;

static void truth(bool k256, u8 *out, size_t n, const u8 *in, size_t len) {
    static const EVP_MD *m[2] = {EVP_MD_fetch(nullptr, "SHAKE128", nullptr), EVP_MD_fetch(nullptr, "SHAKE256", nullptr)};
    if (!n) return;
    EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, m[k256], nullptr); if (len) EVP_DigestUpdate(c, in, len); EVP_DigestFinalXOF(c, out, n); EVP_MD_CTX_free(c);
}
typedef void (*Fn)(u8 *, ull, const u8 *, ull);
static Fn fn(const Case &c, Ctx &x) { const Lib &L = get("basic"); Fn f = c["k"] ? L.shake256 : L.shake128; if (!f) x.skipped = true; return f; }
static const char *nm(const Case &c) { return c["k"] ? "SHAKE256" : "SHAKE128"; }
static unsigned rate(const Case &c) { return c["k"] ? 136 : 168; }
static size_t around(const Case &c, const char *mode, const char *val, size_t big) {
    int64_t v = c[val]; unsigned r = rate(c);
    switch (c[mode]) { case 0: return v % 700; case 1: return (size_t)std::max<int64_t>(0, (int64_t)r * (v % 9) + (v / 9) % 5 - 2); case 2: return v % 40; default: return v % big; }
}
static void check(const Case &c, Fn f, const u8 *data, size_t len, size_t n, bool front, Ctx &x) {
    Buf want(n + 1); truth(c["k"], want.data(), n, data, len);
    Guard in(len, front), out(n, front); in.set(data, len); in.readonly(true);
    if (!guarded([&] { f(out.p, n, in.p, len); })) fail("%s of %zu bytes with %zu bytes of output reaches outside its buffers", nm(c), len, n);
    if (!out.slack_ok()) fail("%s of %zu bytes writes more than the %zu bytes asked for", nm(c), len, n);
    if (n && memcmp(out.p, want.data(), n)) { size_t i = 0; while (out.p[i] == want[i]) i++; fail("%s of %zu bytes: byte %zu of %zu is %02x instead of %02x", nm(c), len, i, n, out.p[i], want[i]); }
    if (len && memcmp(in.p, data, len)) fail("%s changes its input", nm(c));
    x.label(n < rate(c) ? "output below one block" : n == rate(c) ? "output of one block" : "output above one block"); x.label(len < rate(c) ? "input below one block" : len % rate(c) == 0 ? "input of whole blocks" : "input above one block");
}
static void gen(const Case &c, Ctx &x) {
    Fn f = fn(c, x); if (!f) return;
    size_t len = around(c, "im", "iv", opt.thorough ? 200000 : 20000), n = around(c, "om", "ov", opt.thorough ? 200000 : 20000);
    Bytes b(c["s"]); Buf d = b.get(len + 1); if (c["fill"] == 1) std::fill(d.begin(), d.end(), 0); if (c["fill"] == 2) std::fill(d.begin(), d.end(), 0xff);
    if (c["fill"] == 3 && len) { d[len - 1] = 0x1f; if (len > 1) d[len - 2] = 0x80; }
    check(c, f, d.data(), len, n, c["front"], x); x.nontrivial = n > 0; x.sample = std::string(nm(c)) + " in=" + std::to_string(len) + " out=" + std::to_string(n);
}
// all input lengths of a range with the lengths of output around the multiples of the rate
static void grid(const Case &c, Ctx &x) {
    Fn f = fn(c, x); if (!f) return;
    size_t len = c["len"]; Bytes b(mix(len, c["s"])); Buf d = b.get(len + 1); const size_t N = 3 * rate(c) + 2;
    Buf want(N); truth(c["k"], want.data(), N, d.data(), len);
    Guard in(len), out(N); in.set(d.data(), len); in.readonly(true);
    for (size_t n = 0; n <= N; n++) {
        u8 *o = out.p + (N - n);                                            // ends at the inaccessible page
        memset(out.p, 0xB6, N);
        if (!guarded([&] { f(o, n, in.p, len); })) fail("%s of %zu bytes with %zu bytes of output reaches outside its buffers", nm(c), len, n);
        if (n && memcmp(o, want.data(), n)) fail("%s of %zu bytes: output of %zu bytes is not FIPS 202's", nm(c), len, n);
        for (u8 *q = out.p; q < o; q++) if (*q != 0xB6) fail("%s of %zu bytes writes in front of the %zu bytes asked for", nm(c), len, n);
    }
    x.label("length pairs", N + 1); x.nontrivial = true; x.sample = std::string(nm(c)) + " in=" + std::to_string(len) + " out=0.." + std::to_string(N);
}
// lengths that do not fit 31 or 32 bits
static void huge(const Case &c, Ctx &x) {
    Fn f = fn(c, x); if (!f) return;
    size_t len = ((size_t)1 << c["bits"]) + (size_t)c["plus"]; Bytes b(c["s"]);
    if (c["what"] == 0) {
        Repeat in(len, 16 << 20, 1 << 12); b.fill(in.p, 4096); b.fill(in.p + 4096, 16 << 20); b.fill(in.p + len - 2048, 2048);
        u8 want[64], got[64]; truth(c["k"], want, 64, in.p, len); f(got, 64, in.p, len);
        if (memcmp(want, got, 64)) fail("%s of %zu bytes is not FIPS 202's", nm(c), len);
    } else {
        Repeat out(len, 4 << 20), want(len, 4 << 20); u8 in[40]; b.fill(in, 40);
        truth(c["k"], want.p, len, in, 40); f(out.p, len, in, 40);
        size_t part = 5 << 20;
        if (memcmp(out.p, want.p, part) || memcmp(out.p + len - part, want.p + len - part, part)) fail("%s: %zu bytes of output are not FIPS 202's", nm(c), len);
    }
    x.nontrivial = true; x.sample = std::string(nm(c)) + (c["what"] ? " out=" : " in=") + std::to_string(len);
}
// earlier calls must not matter
static void sequence(const Case &c, Ctx &x) {
    const Lib &L = get("fast"); if (!L.shake128 || !L.shake256) { x.skipped = true; return; }
    Bytes b(c["s"]); const auto &ops = c.lst("ops");
    for (int64_t o : ops) {
        size_t len = (o >> 1) % 300, n = (o >> 10) % 300; bool k = o & 1; Buf d = b.get(len + 1), want(n + 1), got(n + 1, 0x99);
        truth(k, want.data(), n, d.data(), len); (k ? L.shake256 : L.shake128)(got.data(), n, d.data(), len);
        if (n && memcmp(got.data(), want.data(), n)) fail("SHAKE%s of %zu bytes, output %zu: not FIPS 202's after earlier calls", k ? "256" : "128", len, n);
        if (got[n] != 0x99) fail("SHAKE%s writes more than %zu bytes", k ? "256" : "128", n);
    }
    x.nontrivial = ops.size() > 1;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    std::vector<Fixed> h; for (int k = 0; k < 2; k++) for (int what = 0; what < 2; what++) h.push_back({{"k", k}, {"what", what}, {"bits", 32}});
    if (T) for (int k = 0; k < 2; k++) for (int what = 0; what < 2; what++) h.push_back({{"k", k}, {"what", what}, {"bits", 31}});
    v.push_back({"huge", {seed("s"), num("plus", 0, 500)}, h, 1, 1, huge}); v.back().max_shrinks = 1; v.back().hang_s = 600;
    v.back().rule = "inputs and outputs of 2^32 (2^31) bytes and a little more";
    std::vector<Fixed> g; for (int k = 0; k < 2; k++) for (int len = 0; len <= (T ? 1400 : 420); len++) g.push_back({{"k", k}, {"len", len}});
    for (int k = 0; k < 2; k++) for (int m = 3; m < 30; m++) for (int dlt = -1; dlt < 2; dlt++) g.push_back({{"k", k}, {"len", m * (k ? 136 : 168) + dlt}});
    v.push_back({"grid", {seed("s")}, g, T ? 4 : 1, 1, grid}); v.back().rule = "every input length up to 420 (1400) and around multiples of the rate, times every output length up to three blocks"; v.back().max_shrinks = 10;
    Field big = num("iv", 0, 1 << 30);
    v.push_back({"gen", {num("im", {{3, 0, 2}, {1, 3, 3}}), num("iv", 0, 1 << 30), num("om", {{3, 0, 2}, {1, 3, 3}}), num("ov", 0, 1 << 30), num("fill", {{5, 0, 0}, {3, 1, 3}}), num("front", 0, 1), seed("s")}, {{{"k", 0}}, {{"k", 1}}}, T ? 400000 : 40000, 500, gen});
    v.back().rule = "generated lengths and contents between inaccessible pages; non-trivial: output not empty";
    v.push_back({"sequence", {seed("s"), list("ops", 12, {{1, 0, 1 << 20}})}, {}, T ? 40000 : 4000, 500, sequence});
    v.back().rule = "sequences of calls of both functions; non-trivial: more than one";
    return v;
}
