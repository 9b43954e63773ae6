// C22: calls leave nothing behind, and need little memory whatever the message length. Allocations of the library are
// counted at link level, descriptors in /proc/self/fd, stack by painting.
#include "fab.hpp"
#include "synth.hpp"
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <unistd.h>
using namespace eng; using namespace lib; using namespace shapes;

struct Res { long long blocks, bytes, peak; };
static Res &res(const Lib &L) { Res *r = (Res *)dlsym(L.h, "verif_res"); if (!r) { fprintf(stderr, "no verif_res\n"); exit(3); } return *r; }
static long fds() { long n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }

// ---- calls on a stack of their own
static const size_t STACK = 256 << 20; static u8 *stk; static ucontext_t back, ctx; static std::function<void()> *todo;
static void enter() { (*todo)(); }
static size_t on_stack(std::function<void()> f, size_t look) {      // bytes of stack used, up to "look"
    if (!stk) { stk = (u8 *)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (stk == MAP_FAILED) exit(3); mprotect(stk, 4096, PROT_NONE); stk += 4096; }
    memset(stk + STACK - look, 0xc9, look); todo = &f; getcontext(&ctx); ctx.uc_stack.ss_sp = stk; ctx.uc_stack.ss_size = STACK; ctx.uc_link = &back; makecontext(&ctx, enter, 0); swapcontext(&back, &ctx);
    u8 *p = stk + STACK - look; while (p < stk + STACK && *p == 0xc9) p++;
    madvise(stk, STACK - look, MADV_DONTNEED);
    return (size_t)(stk + STACK - p);
}
static const std::vector<std::string> &flavours() { static std::vector<std::string> v{"resmockbasic", "resmockfast", "resbasic", "resfast"}; return v; }

// ---- one operation of a kind; never judged here
enum { KEYPAIR, SIGN, SIGN_LONG, REFUSED, OPEN, DAMAGED, SHORT, WRONGKEY, UNKNOWN, NAMES, NKIND };
static const char *const kind[] = {"key generation", "signing", "signing long messages", "refused signing", "verification", "verification of damaged signatures", "verification of short input", "verification under another key", "unknown identifiers", "names"};
struct Subject {
    Api a; KeyPair kp; Buf sm, spk; uint64_t used = 0; bool can_make;
    Subject(const Lib &L, const ref::P &p, uint64_t s) : a(p.oid ? api(L, p) : custom(L, p)), can_make(p.th <= 5 || p.h <= 8) {
        if (can_make || L.fast) kp = make_key(a, s); else { kp = plain_key(a, cached_key(a.p, 1), 0); }
        synth::Synth y(a.p, mix(s, 3) & last_index(a.p), s); Bytes b(s); Buf R = b.get(p.n); sm = y.sign(y.root, R, b.get(20)); spk = y.pk(a, y.root);
    }
    void run(int op, Bytes &b) {
        const Lib &L = *a.L; ull n = 0;
        switch (op) {
        case KEYPAIR: if (can_make) { Buf pk(a.pk), sk(a.sk); Rng::seed(b.next()); a.keypair(pk.data(), sk.data()); } break;
        case SIGN: case SIGN_LONG: { Buf m = b.get(op == SIGN ? b.below(50) : 20000 + b.below(60000)), o(a.sig + m.size()); Buf sk = kp.sk; a.sign(sk.data(), o.data(), &n, m.data(), m.size()); if (used < last_index(a.p)) { used++; kp.sk = sk; } break; }
        case REFUSED: { Buf sk = kp.sk, o(a.sig); u8 m = 0; uint64_t e = last_index(a.p) + 1; if (a.p.idxb < 8 && e >> (8 * a.p.idxb)) e--; a.set_index(sk.data(), e); a.sign(sk.data(), o.data(), &n, &m, 0); a.sign(sk.data(), o.data(), &n, &m, 0); break; }
        case OPEN: case DAMAGED: case SHORT: case WRONGKEY: case UNKNOWN: {
            Buf s = sm, pk = spk; if (op == DAMAGED) s[b.below(s.size())] ^= 1 << b.below(8); if (op == SHORT) s.resize(b.below(a.sig)); if (op == WRONGKEY) pk[a.off + b.below(2 * a.p.n)] ^= 4;
            if (op == UNKNOWN) { if (!a.off) break; pk[b.below(2)] ^= 0x40; Buf sk = kp.sk, o(a.sig); sk[1] ^= 0x20; u8 m = 0; a.sign(sk.data(), o.data(), &n, &m, 0); xmss_params q; memset(&q, 0, sizeof q); (a.family ? L.xmssmt_parse_oid : L.xmss_parse_oid)(&q, 0x4000 + (uint32_t)b.below(9)); }
            Buf o(std::max(s.size(), a.sig)); a.open(o.data(), &n, s.data(), s.size(), pk.data()); break;
        }
        case NAMES: { uint32_t o; std::string s = b.below(2) ? ref::standard()[b.below(77)].name : std::string(b.below(40), 'X'); L.xmss_str_to_oid(&o, s.c_str()); L.xmssmt_str_to_oid(&o, s.c_str()); break; }
        }
    }
};
static void steady(const Case &c, Ctx &x) {
    const Lib &L = get(flavours()[c["fl"]]); if (L.mock && !L.mock_ok) { x.skipped = true; return; }
    const ref::P &q = c.v.count("ps") ? ref::standard()[c["ps"]] : params(c, c["g"]); Subject s(L, q, c["ks"]); Bytes b(c["cs"]); auto ops = c.lst("ops"); if (ops.empty()) ops.push_back(SIGN);
    struct M { long long blocks, bytes; long fd; }; std::vector<M> log; int rounds = 24;
    for (int i = 0; i < rounds; i++) {
        for (auto o : ops) s.run((int)o, b);
        log.push_back({res(L).blocks, res(L).bytes, fds()});
        if (i + 1 == rounds && rounds < 800) {          // something grows: is there an end to it?
            auto &h = log[rounds / 2 - 1], &e = log[rounds - 1]; if (e.blocks - h.blocks >= rounds / 4 || e.bytes - h.bytes >= rounds * 2 || e.fd - h.fd >= rounds / 4) rounds *= 2;
        }
    }
    auto &h = log[rounds / 2 - 1], &e = log[rounds - 1]; std::string o; for (auto k : ops) o += std::string(o.empty() ? "" : ", ") + kind[k];
    if (rounds >= 768) {
        if (e.fd - h.fd >= rounds / 4) fail("%s: after %d and %d rounds of [%s] the process has %ld and %ld open descriptors", pname(s.a.p), rounds / 2, rounds, o.c_str(), h.fd, e.fd);
        fail("%s: after %d and %d rounds of [%s] the library holds %lld and %lld blocks (%lld and %lld bytes) of memory", pname(s.a.p), rounds / 2, rounds, o.c_str(), h.blocks, e.blocks, h.bytes, e.bytes);
    }
    for (auto k : ops) x.label(kind[k], (uint64_t)rounds); x.nontrivial = ops.size() > 1; x.sample = std::string(pname(s.a.p)) + " [" + o + "]";
}
// memory of one call with a small and with a large message
static void peak(const Case &c, Ctx &x) {
    const Lib &L = get(flavours()[c["fl"]]); if (L.mock && !L.mock_ok) { x.skipped = true; return; }
    Subject s(L, ref::standard()[c["ps"]], c["ks"]); const ref::P &p = s.a.p; Bytes b(c["cs"]); size_t big = (size_t)c["big"] << 10, small = b.below(64); size_t st[2][2]; long long hp[2][2];
    for (int k = 0; k < 2; k++) {
        size_t ml = k ? big : small; Buf m = b.get(ml), o(s.a.sig + ml + 64), sk = s.kp.sk; ull n = 0; res(L).peak = res(L).bytes; long long h0 = res(L).bytes;
        st[k][0] = on_stack([&] { s.a.sign(sk.data(), o.data(), &n, m.data(), m.size()); }, 2 << 20); hp[k][0] = res(L).peak - h0;
        res(L).peak = res(L).bytes; h0 = res(L).bytes; Buf sm = s.sm, d; sm.resize(s.a.sig); sm.insert(sm.end(), m.begin(), m.end()); d.resize(sm.size());
        st[k][1] = on_stack([&] { s.a.open(d.data(), &n, sm.data(), sm.size(), s.spk.data()); }, 2 << 20); hp[k][1] = res(L).peak - h0;
    }
    for (int w = 0; w < 2; w++) {
        const char *what = w ? "verification" : "signing";
        for (int k = 0; k < 2; k++) if (st[k][w] + (size_t)std::max(0LL, hp[k][w]) > 1 << 20) fail("%s: %s of %zu bytes needs %zu bytes of stack and %lld of heap", pname(p), what, k ? big : small, st[k][w], hp[k][w]);
        if (st[1][w] + hp[1][w] > st[0][w] + hp[0][w] + 8192) fail("%s: %s needs %zu bytes of stack and %lld of heap for a message of %zu bytes, but %zu and %lld for %zu bytes", pname(p), what, st[1][w], hp[1][w], big, st[0][w], hp[0][w], small);
    }
    if (s.can_make || L.mock) { Buf pk(s.a.pk), sk(s.a.sk); res(L).peak = res(L).bytes; long long h0 = res(L).bytes; Rng::seed(1); size_t u = on_stack([&] { s.a.keypair(pk.data(), sk.data()); }, 2 << 20); if (u + (size_t)std::max(0LL, res(L).peak - h0) > 1 << 20) fail("%s: key generation needs %zu bytes of stack and %lld of heap", pname(p), u, res(L).peak - h0); }
    x.label(st[0][0] > 64 << 10 ? "signing needs more than 64 KiB" : "signing needs at most 64 KiB"); x.nontrivial = big > 65536; x.sample = std::string(pname(p)) + " stack " + std::to_string(st[0][0]) + " " + std::to_string(st[1][0]) + " heap " + std::to_string(hp[1][0]);
}
static void random_source(const Case &c, Ctx &x) {
    const Lib &L = get("resbasic"); if (!L.randombytes) { x.skipped = true; return; }
    Bytes b(c["cs"]); uint64_t rounds = c["rounds"]; Buf o(c["max"] + 1); long first = 0, half = 0; long long b0 = 0, bh = 0; rlimit r; getrlimit(RLIMIT_NOFILE, &r); rlim_t keep = r.rlim_cur; r.rlim_cur = std::min<rlim_t>(r.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &r);
    for (uint64_t i = 0; i < rounds; i++) {
        L.randombytes(o.data(), b.below(o.size()));
        if (i == rounds / 4) { first = fds(); b0 = res(L).blocks; } if (i == rounds / 2) { half = fds(); bh = res(L).blocks; }
    }
    long end = fds(); r.rlim_cur = keep; setrlimit(RLIMIT_NOFILE, &r);
    if (half > first + (long)rounds / 8 && end > half + (long)rounds / 4) fail("%llu and %llu calls of randombytes leave %ld and %ld open descriptors", (ull)rounds / 2, (ull)rounds, half, end);
    if (bh > b0 + (long long)rounds / 8 && res(L).blocks > bh + (long long)rounds / 4) fail("%llu and %llu calls of randombytes leave %lld and %lld blocks of memory", (ull)rounds / 2, (ull)rounds, bh, res(L).blocks);
    x.label("requests", rounds); x.nontrivial = true; x.sample = "largest " + std::to_string(c["max"]);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v; auto cross = [](std::vector<Fixed> in, int lo, int hi) { std::vector<Fixed> o; for (auto z : in) for (int f = lo; f <= hi; f++) { z["fl"] = f; o.push_back(z); } return o; };
    std::vector<Field> f{num("ks", 0, 3), seed("cs"), list("ops", 6, {{1, 0, NKIND - 1}})};
    auto add = [&](Stage s, int shrinks, const char *rule) { s.max_shrinks = shrinks; s.rule = rule; v.push_back(s); };
    add({"steady", f, cross(pick([&](const ref::P &p) { return p.th <= 10; }), 0, 1), T ? 60 : 4, T ? 10 : 4, steady}, 60, "rounds of generated operations (successful, refused, failing) on standard sets: held memory and descriptors do not keep growing");
    add({"steady-shapes", cat(f, {num("g", 0, 6), num("wi", 0, 2)}), cross(strata({{2, 1, 0}, {4, 1, 2}, {2, 2, 0}, {3, 2, 1}, {2, 4, 0}, {4, 2, 2}, {8, 1, 0}, {6, 3, 4}, {3, 5, 1}}), 0, 1), T ? 60 : 6, T ? 10 : 6, steady}, 60, "the same for custom shapes");
    add({"steady-real", cat(f, {num("g", 0, 6), num("wi", 0, 1)}), cross(strata({{2, 1, 0}, {2, 2, 0}, {3, 1, 1}}), 2, 3), T ? 12 : 2, 1, steady}, 20, "the same with real hashing");
    add({"peak", {num("ks", 0, 3), seed("cs"), num("big", {{2, 64, 600}, {1, 1000, 9000}})}, cross(pick([&](const ref::P &p) { return p.th <= 10; }), 0, 1), T ? 10 : 1, 1, peak}, 30, "stack and heap of signing and verifying a small and a large message, standard sets");
    add({"peak-tall", {num("ks", 0, 3), seed("cs"), num("big", 64, 600)}, cross(pick([&](const ref::P &p) { return p.th > 10 && (T || p.th == 16 || (p.n == 32 && p.func == 0 && !p.mt)); }), 0, 1), 1, 1, peak}, 1, "the same for sets with trees of height 16 and 20, with key generation");
    add({"peak-real", {num("ks", 0, 3), seed("cs"), num("big", 64, 4000)}, cross(pick([&](const ref::P &p) { return p.th == 5 && p.d <= 4; }), 2, 3), T ? 4 : 1, 1, peak}, 8, "the same with real hashing");
    add({"random", {seed("cs"), num("rounds", 200, 3000), num("max", {{2, 1, 200}, {1, 200, 5000}})}, {}, T ? 60 : 12, 1, random_source}, 40, "many requests to the real random source: descriptors and memory do not keep growing");
    return v;
}
