// C03: verification of arbitrary bytes is memory safe and rejects malformed input.
// Runs in an AddressSanitizer process; "asan*" builds are instrumented, plain ones run between inaccessible pages.
#include "shapes.hpp"
#include "synth.hpp"
#include <cstring>
#include <fcntl.h>
#include <map>
#include <memory>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace eng; using namespace lib; using namespace shapes;
using synth::Synth;

static Synth &cached(const ref::P &p, uint64_t idx, uint64_t s) {
    static std::map<std::string, std::unique_ptr<Synth>> c; char k[256];
    snprintf(k, sizeof k, "%s/%d/%llu/%llu", pname(p), p.mock, (ull)idx, (ull)s);
    if (c.size() > 40) c.clear();
    auto &x = c[k]; if (!x) x = std::make_unique<Synth>(p, idx, s); return *x;
}
static bool usable(const Lib &L) { return !L.mock || L.mock_ok; }
// want: 1 accept, 0 reject, -1 not known
static void judge(const Api &a, int r, ull ml, const u8 *m, const u8 *sm, size_t len, size_t sig, int want, const char *what) {
    if (len < sig || sig == 0) {
        if (!r) fail("%s: %s: accepted (%zu bytes, a signature has %zu)", pname(a.p), what, len, sig);
        if (ml != 0) fail("%s: %s: rejected with message length %llu (%zu bytes, a signature has %zu)", pname(a.p), what, ml, len, sig);
        return;
    }
    if (want == 1 && r) fail("%s: %s: valid signature rejected", pname(a.p), what);
    if (want == 0 && !r) fail("%s: %s: accepted", pname(a.p), what);
    if (r) { if (ml) fail("%s: %s: rejected with message length %llu", pname(a.p), what, ml); }
    else { if (ml != len - sig) fail("%s: %s: accepted with message length %llu of %zu", pname(a.p), what, ml, len - sig);
           if (ml && memcmp(m, sm + sig, ml)) fail("%s: %s: accepted with another message", pname(a.p), what); }
}
// exact heap blocks, so that the sanitizer sees every byte too far
struct Heap { u8 *p; explicit Heap(const Buf &b) : p(new u8[b.size()]) { if (!b.empty()) memcpy(p, b.data(), b.size()); } Heap(size_t n, int f) : p(new u8[n]) { memset(p, f, n); } ~Heap() { delete[] p; } };

static void run(const Api &a, const Buf &sm, const Buf &pk, size_t sig, int want, const char *what, bool asan, int fill, int front) {
    ull ml = 0x7777777777ULL;
    if (asan) {
        Heap s(sm), k(pk), o(sm.size(), fill);
        int r = a.open(o.p, &ml, s.p, sm.size(), k.p);
        judge(a, r, ml, o.p, s.p, sm.size(), sig, want, what);
        if (!sm.empty() && memcmp(s.p, sm.data(), sm.size())) fail("%s: %s: the signed message was changed", pname(a.p), what);
        if (!pk.empty() && memcmp(k.p, pk.data(), pk.size())) fail("%s: %s: the public key was changed", pname(a.p), what);
    } else {
        Guard s(sm.size(), front & 1), k(pk.size(), front & 2), o(sm.size(), front & 4, fill); s.set(sm.data(), sm.size()); k.set(pk.data(), pk.size()); s.readonly(true); k.readonly(true);
        int r = a.open(o.p, &ml, s.p, sm.size(), k.p);
        judge(a, r, ml, o.p, s.p, sm.size(), sig, want, what);
        if (!o.slack_ok()) fail("%s: %s: bytes next to the message buffer were changed", pname(a.p), what);
    }
}
static Api pick_api(const Case &c, const Lib &L) { return c.v.count("ps") ? api(L, ref::standard()[c["ps"]]) : custom(L, params(c, c["g"])); }
static const char *flav(const Case &c) { static const char *f[] = {"asanbasic", "asanfast", "basic", "fast", "asanmockbasic", "asanmockfast", "mockbasic", "mockfast"}; return f[c["fl"]]; }
static void bytes(const Case &c, Ctx &x) {
    const Lib &L = get(flav(c)); if (!usable(L)) { x.skipped = true; return; }
    Api a = pick_api(c, L); const ref::P &p = a.p; Bytes b(c["cs"]); size_t sig = p.sigb, len; int64_t lv = c["lv"];
    switch (c["lm"]) {
    case 0: len = lv % (p.idxb + p.n + 8); break;                                           // almost nothing
    case 1: len = lv % sig; break;                                                          // cut anywhere
    case 2: len = sig - 1 - lv % std::min<size_t>(sig, 5 * p.n); break;                     // a little too short
    case 3: len = sig + lv % 5; break;
    case 4: len = sig + lv % 3000; break;
    case 5: { size_t unit = (size_t)(p.len + p.th) * p.n; len = p.idxb + p.n + unit * (lv % (p.d + 1)) + (lv / 64 % 3) * p.len * p.n; len += lv / 256 % 3; if (len) len -= 1; break; } // around the parts
    case 6: len = p.idxb + p.n + p.n * (lv % ((sig - p.idxb) / p.n)) ; break;                // whole nodes
    default: len = lv % (3 * sig); break;
    }
    Buf sm, pk; int want = -1; std::string what;
    if (c["content"] <= 3) {                     // starts as a valid signature
        uint64_t idx = pick_index(p, c); Synth &s = cached(p, idx, c["ks"] % (L.mock ? 1 << 20 : 4)); Buf R = b.get(p.n), m = b.get(len > sig ? len - sig : 0);
        sm = s.sign(s.root, R, m); pk = s.pk(a, s.root); sm.resize(len); want = 1; what = "cut from a valid signature";
        if (c["content"] >= 2 && len) { size_t n = 1 + b.below(c["content"] == 2 ? 2 : 60); for (size_t i = 0; i < n; i++) { size_t o = b.below(3) ? b.below(len) : b.below(std::min<size_t>(len, p.idxb + p.n)); sm[o] = b.below(2) ? (u8)b.next() : (b.below(2) ? 0xff : 0); } want = -1; what = "a valid signature with bytes replaced"; }
    } else {
        sm.resize(len); pk.resize(a.pk); if (a.oid) ref::to_bytes(pk.data(), 4, p.oid); b.fill(pk.data() + a.off, pk.size() - a.off);
        switch (c["content"]) { case 4: b.fill(sm.data(), len); what = "random bytes"; break; case 5: std::fill(sm.begin(), sm.end(), 0); what = "zero bytes"; break; case 6: std::fill(sm.begin(), sm.end(), 0xff); what = "bytes ff"; break;
            default: { Buf unit = b.get(1 + b.below(40)); for (size_t i = 0; i < len; i++) sm[i] = unit[i % unit.size()]; what = "repeated bytes"; } }
        want = 0;
    }
    switch (c["pkm"]) {
    case 1: { std::fill(pk.begin() + a.off, pk.end(), (u8)(b.below(2) ? 0 : 0xff)); want = 0; what += ", constant key"; break; }
    case 2: b.fill(pk.data() + a.off, pk.size() - a.off); want = 0; what += ", random key"; break;
    case 3: if (a.oid) {                             // another identifier
        uint32_t id; switch (b.below(5)) { case 0: id = 1 + (uint32_t)b.below(80); break; case 1: id = (uint32_t)b.below(256) << 24; break; case 2: id = p.oid + (1u << (8 + b.below(24))); break; case 3: id = 0; break; default: id = (uint32_t)b.next(); }
        const ref::P *q = ref::by_oid(a.family, id); pk.resize(q ? 4 + 2 * q->n : 4); ref::to_bytes(pk.data(), 4, id);
        if (q && b.below(2)) sm.resize(b.below(2) ? q->sigb - b.below(q->sigb) : q->sigb + b.below(50)); sig = q ? q->sigb : 0; want = id == p.oid ? -1 : 0; what += ", identifier " + std::to_string(id); x.label(q ? "other identifier" : "unknown identifier"); break; }
    default:;
    }
    x.nontrivial = sm.size() < sig || want != 0; x.label(sm.size() < sig ? "shorter than a signature" : sm.size() == sig ? "exactly a signature" : "longer than a signature"); x.label(what.substr(0, what.find(',')));
    x.sample = std::string(pname(p)) + " " + std::to_string(sm.size()) + " of " + std::to_string(sig) + " bytes: " + what;
    run(a, sm, pk, sig, want, what.c_str(), L.name.rfind("asan", 0) == 0, (int)(c["cs"] & 0xff), (int)c["front"]);
}
// every length below the size of a signature
static void lengths(const Case &c, Ctx &x) {
    const Lib &L = get(flav(c));
    Api a = pick_api(c, L); const ref::P &p = a.p; size_t sig = p.sigb; Bytes b(c["cs"]);
    Buf data = b.get(sig), pk = b.get(a.pk); if (a.oid) ref::to_bytes(pk.data(), 4, p.oid);
    if (c["zero"]) std::fill(data.begin(), data.end(), 0);
    bool front = c["front"]; Guard s(sig, front), o(sig, front, 0x3c), k(a.pk, front); s.set(data.data(), sig); k.set(pk.data(), a.pk); s.readonly(true); k.readonly(true);
    for (size_t len = 0; len < sig; len++) {
        u8 *sp = front ? s.p : s.p + sig - len, *op = front ? o.p : o.p + sig - len; ull ml = 0x1234567;
        int r = a.open(op, &ml, sp, len, k.p);
        if (!r || ml) fail("%s: %zu of %zu signature bytes: result %d, message length %llu", pname(p), len, sig, r, ml);
        if (front) for (size_t i = len; i < sig && i < len + 256; i++) if (o.p[i] != 0x3c) fail("%s: %zu of %zu signature bytes: byte %zu beyond the output is written", pname(p), len, sig, i - len);
        if (!front) for (size_t i = sig - len; i > 0 && i + 256 > sig - len; i--) if (o.p[i - 1] != 0x3c) fail("%s: %zu of %zu signature bytes: output is written in front of the buffer", pname(p), len, sig);
    }
    if (!o.slack_ok()) fail("%s: bytes next to the output buffer were changed", pname(p));
    x.label("lengths", sig); x.nontrivial = true; x.sample = std::string(pname(p)) + " 0.." + std::to_string(sig - 1);
}
// coverage-guided search (libFuzzer) with the same oracle inside the target; a case is one deterministic campaign
static void fuzz(const Case &c, Ctx &x) {
    std::string bin = opt.args["fuzzbin"], dir = opt.work + "/fz." + std::to_string(getpid()); if (bin.empty()) { x.skipped = true; return; }
    std::string out = dir + ".log"; mkdir(dir.c_str(), 0700);
    std::string runs = "-runs=" + std::to_string(c["runs"]), seed = "-seed=" + std::to_string(1 + c["fs"]), art = "-artifact_prefix=" + dir + "/", ml = "-max_len=" + std::to_string(c["maxlen"]);
    pid_t pid = fork();
    if (!pid) {
        int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); if (chdir(dir.c_str())) _exit(9);
        execl(bin.c_str(), bin.c_str(), runs.c_str(), seed.c_str(), art.c_str(), ml.c_str(), "-len_control=0", opt.thorough ? "-max_total_time=900" : "-max_total_time=60", "-timeout=60", "-rss_limit_mb=4096", "-detect_leaks=0", "-print_final_stats=1", (char *)nullptr); _exit(9);
    }
    int st; waitpid(pid, &st, 0);
    std::string log; { FILE *f = fopen(out.c_str(), "r"); char buf[4096]; size_t n; while (f && (n = fread(buf, 1, sizeof buf, f)) > 0) log.append(buf, n); if (f) fclose(f); }
    auto grab = [&](const char *k) { size_t q = log.find(k); return q == std::string::npos ? std::string("?") : log.substr(q, log.find('\n', q) - q); };
    auto cov = log.rfind("cov: "); std::string cv = cov == std::string::npos ? "?" : log.substr(cov, log.find('\n', cov) - cov);
    (void)!system(("rm -rf '" + dir + "' '" + out + "'").c_str());
    if (st) {
        std::string why = grab("ORACLE"); if (why == "?") why = grab("ERROR: "); if (why == "?") why = grab("runtime error");
        if (why == "?" && WIFEXITED(st) && WEXITSTATUS(st) == 9) { x.skipped = true; return; }
        fail("libFuzzer campaign ends with status %d: %s", st, why.c_str());
    }
    x.nontrivial = true; x.label("libFuzzer executions", c["runs"]); x.sample = cv;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, const char *k, std::vector<int> xs) { std::vector<Fixed> o; for (int q : xs) for (auto e : f) { e[k] = q; o.push_back(e); } return o; };
    auto any = [](const ref::P &) { return true; };
    std::vector<Field> fs = cat(index_fields(), {num("lm", 0, 7), num("lv", 0, 1 << 30), num("content", 0, 7), num("pkm", {{5, 0, 0}, {3, 1, 3}}), num("ks", 0, 1 << 30), seed("cs"), num("front", 0, 7)});
    v.push_back({"lengths", {seed("cs"), num("zero", 0, 1), num("front", 0, 1)}, with(pick(any), "fl", {2, 3}), T ? 4 : 1, 1, lengths}); v.back().max_shrinks = 6;
    v.back().rule = "every length below a signature, for every set, between inaccessible pages";
    v.push_back({"mock-asan", fs, with(pick(any), "fl", {4, 5}), T ? 3000 : 150, 50, bytes}); v.back().max_shrinks = 300;
    v.back().rule = "all sets, cheap one-time functions, ASan: generated bytes (valid, cut, extended, edited, arbitrary) under generated keys; non-trivial: too short, or not known to be invalid in advance";
    v.push_back({"mock-guard", fs, with(pick(any), "fl", {6, 7}), T ? 3000 : 150, 50, bytes}); v.back().max_shrinks = 300;
    v.back().rule = "the same between inaccessible pages, inputs read-only";
    v.push_back({"real-asan", fs, with(pick([&](const ref::P &p) { return T || p.d <= 4; }), "fl", {0}), T ? 80 : 10, 5, bytes}); v.back().max_shrinks = 60;
    v.back().rule = "the same with real hashing, ASan and array bounds";
    std::vector<Fixed> cs; for (S s : {S{2, 1, 0}, S{5, 1, 0}, S{2, 3, 0}, S{3, 2, 0}, S{7, 9, 0}, S{4, 2, 0}}) for (int g = 0; g < 7; g++) for (int wi = 0; wi < 3; wi++) cs.push_back({{"th", s.th}, {"d", s.d}, {"k", s.k}, {"g", g}, {"wi", wi}});
    v.push_back({"custom-asan", fs, with(cs, "fl", {0}), T ? 60 : 6, 3, bytes}); v.back().max_shrinks = 60;
    v.back().rule = "custom shapes, w=4,16,256";
    if (!opt.args["fuzzbin"].empty()) {
        int n = T ? 1500000 : 60000;
        v.push_back({"fuzz", {num("fs", 0, 1 << 30), num("runs", n, n), num("maxlen", {{1, 64, 64}, {1, 4000, 4000}})}, {}, T ? 24 : 8, 1, fuzz}); v.back().max_shrinks = 0; v.back().hang_s = T ? 2000 : 300;
        v.back().rule = "libFuzzer campaigns (clang, ASan, cheap one-time functions) over identifier, key, signed message and its length; a case is one campaign";
    }
    return v;
}
