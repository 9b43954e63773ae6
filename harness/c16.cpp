// C16: operations on different keys do not influence each other. The oracle for one call is the same call, with copies of
// its arguments, alone in a freshly loaded copy of the library.
#include "shapes.hpp"
#include <atomic>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <dlfcn.h>
#include <ucontext.h>
#include <unistd.h>
using namespace eng; using namespace lib; using namespace shapes;

// ---- random source: one stream per call, whichever thread or coroutine draws
// A stream is one of three, with parts of it (seeds, their last or middle bytes) changed: keys that agree in all the rest.
struct Source { Bytes b; uint64_t pos = 0; unsigned n, kin;
    Source(uint64_t rng, unsigned n_) : b(mix(rng % 3, 0x16)), n(n_), kin((unsigned)(rng / 3)) {}
    u8 next() {
        u8 v = (u8)(b.next() >> 24); uint64_t part = pos / n, at = pos % n; pos++;
        switch (kin) {
        case 0: return v;
        case 1: case 2: case 3: return part == kin - 1 ? v ^ 0x5a : v;                       // another sk_seed, prf key or public seed
        case 4: case 5: case 6: return part == kin - 4 && at == n - 1 ? v ^ 1 : v;             // its last byte
        case 7: case 8: case 9: return part == kin - 7 && at == n / 2 ? v ^ 0x80 : v;          // a byte in its middle
        case 10: return part < 2 ? v ^ 0x33 : v;                                              // only the public seed is the same
        case 11: return part == 2 && at >= 8 ? v ^ 0x77 : v;                                  // only its beginning
        case 12: return part == 0 && at >= 8 ? v ^ 0x77 : v;
        default: return part == (kin & 1 ? 0 : 2) && at == 0 ? v ^ 1 : v;                     // the first byte
        }
    } };
static const unsigned KINS = 15;
static thread_local Source *stream;
static void draw(u8 *p, ull n) { for (ull i = 0; i < n; i++) p[i] = stream ? stream->next() : 0; }

// ---- one call
enum Kind { KEYPAIR, SIGN, OPEN, NKINDS };
struct Call { int kind; Api a; uint64_t rng; Buf in, pk, sk; };          // a.L is replaced by the copy that runs it
struct Res {
    int r = 0; ull len = 0; Buf out, pk, sk;                             // what the call is documented to produce
    bool operator==(const Res &o) const { return r == o.r && len == o.len && out == o.out && pk == o.pk && sk == o.sk; }
    std::string diff(const Res &o) const {
        char b[160]; auto d = [&](const Buf &x, const Buf &y, const char *n) { size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++; snprintf(b, sizeof b, "%s differs at byte %zu (%zu and %zu bytes)", n, i, x.size(), y.size()); return std::string(b); };
        if (r != o.r) { snprintf(b, sizeof b, "returns %d, alone %d", r, o.r); return b; }
        if (len != o.len) { snprintf(b, sizeof b, "length %llu, alone %llu", len, o.len); return b; }
        return out != o.out ? d(out, o.out, "output") : pk != o.pk ? d(pk, o.pk, "public key") : d(sk, o.sk, "secret key");
    }
};
struct Place { u8 *p[4]; };                                              // where the arguments lie
static const size_t AREA = 1 << 19;
__attribute__((noinline)) static void dirty_stack(int fill) { u8 b[200000]; memset(b, fill, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
static Res perform(const Lib &L, const Call &c, const Place &pl, int fill) {
    Api a = c.a; a.L = &L; Res r; Source st(c.rng, a.p.n); Source *old = stream; stream = &st;
    if (c.kind == KEYPAIR) {
        u8 *pk = pl.p[0], *sk = pl.p[1]; memset(pk, fill, a.pk); memset(sk, fill, a.sk);
        r.r = a.keypair(pk, sk); if (!r.r) { r.pk.assign(pk, pk + a.pk); r.sk.assign(sk, sk + a.sk); }
    } else if (c.kind == SIGN) {
        size_t n = c.in.size(); u8 *sk = pl.p[1], *m = pl.p[2], *sm = pl.p[3]; memcpy(sk, c.sk.data(), c.sk.size()); if (n) memcpy(m, c.in.data(), n); memset(sm, fill, a.sig + n);
        ull len = 0x1234567890ULL * fill; r.r = a.sign(sk, sm, &len, m, n); r.sk.assign(sk, sk + c.sk.size());
        if (!r.r) { r.len = len; r.out.assign(sm, sm + a.sig + n); }
    } else {
        size_t n = c.in.size(); u8 *pk = pl.p[0], *sm = pl.p[2], *m = pl.p[3]; memcpy(pk, c.pk.data(), c.pk.size()); if (n) memcpy(sm, c.in.data(), n); memset(m, fill, n);
        ull len = 0x1234567890ULL * fill; r.r = a.open(m, &len, sm, n, pk); r.len = len;
        if (r.r) r.r = 1;                                                // which nonzero value is not promised
        else if (len <= n) r.out.assign(m, m + len);
    }
    stream = old; return r;
}
// separate heap blocks of the exact sizes
static Res apart(const Lib &L, const Call &c, int fill, size_t shift) {
    size_t s[4] = {c.a.pk + 64, std::max(c.a.sk, c.sk.size()) + 64, c.in.size() + 64, c.in.size() + c.a.sig + 64};
    Place pl; std::unique_ptr<u8[]> h[4]; for (int i = 0; i < 4; i++) { h[i].reset(new u8[s[i]]); memset(h[i].get(), fill, s[i]); pl.p[i] = h[i].get() + shift % 64; }
    return perform(L, c, pl, fill);
}

// ---- a copy of the library without any history
struct Fresh {
    Lib L; std::string path;
    explicit Fresh(const std::string &flavour) : path(spare(flavour)) { L = load(path, flavour); if (L.set_rng) L.set_rng(draw); }
    ~Fresh() {
        dlclose(L.h);
        void *again = dlopen(path.c_str(), RTLD_NOLOAD | RTLD_NOW);
        if (again) { dlclose(again); names()[L.name].clear(); }          // it stays: the next one gets a file of its own
    }
    Fresh(const Fresh &) = delete;
  private:
    static std::map<std::string, std::string> &names() { static std::map<std::string, std::string> m; return m; }
    static const std::string &spare(const std::string &fl) {
        std::string &s = names()[fl]; static int nr; if (!s.empty()) return s;
        s = (opt.work.empty() ? std::string("/tmp") : opt.work) + "/copy-" + fl + "-" + std::to_string(getpid()) + "-" + std::to_string(nr++) + ".so";
        std::string from = opt.args["so_" + fl]; FILE *i = fopen(from.c_str(), "rb"), *o = fopen(s.c_str(), "wb"); char b[65536]; size_t n;
        if (!i || !o) { fprintf(stderr, "cannot copy %s\n", from.c_str()); exit(3); }
        while ((n = fread(b, 1, sizeof b, i)) > 0) if (fwrite(b, 1, n, o) != n) { fprintf(stderr, "cannot copy %s\n", from.c_str()); exit(3); }
        fclose(i); fclose(o); return s;
    }
};
static Res alone(const std::string &flavour, const Call &c) { Fresh f(flavour); return apart(f.L, c, 0, 0); }

// ---- keys
struct Set { int f; unsigned n, w, h, d, k; };
static const Set sets[] = {{0, 32, 16, 4, 2, 0}, {0, 32, 16, 3, 1, 1}, {0, 64, 16, 4, 2, 0}, {1, 32, 16, 4, 2, 0}, {2, 64, 16, 2, 1, 0}, {0, 24, 16, 6, 3, 0}, {2, 32, 4, 3, 1, 1}, {2, 24, 256, 2, 1, 0},
    {0, 32, 4, 4, 2, 0}, {0, 24, 256, 2, 1, 0}, {0, 32, 16, 5, 1, 1}, {2, 24, 16, 4, 2, 0}, {1, 32, 4, 2, 1, 0}, {0, 32, 16, 4, 1, 2}};
static const int NSETS = sizeof sets / sizeof *sets;
static std::vector<ref::P> cheap_oids() { std::vector<ref::P> v; for (auto &p : ref::standard()) if (p.th <= 10 && p.h <= 40) v.push_back(p); return v; }
static ref::P param(bool mock, int64_t i, int fam = 0) {                 // fam: 0 any, 1 standard single-tree sets, 2 standard multi-tree sets
    static const std::vector<ref::P> o = cheap_oids(); static std::vector<ref::P> of[2]; if (of[0].empty()) for (auto &p : o) of[p.mt].push_back(p);
    if (mock && fam) { auto &f = of[fam - 1]; return f[(uint64_t)i % f.size()]; }
    if (mock && i % 3) return o[(uint64_t)i / 3 % o.size()];
    auto &s = sets[(uint64_t)(mock ? i / 3 : i) % NSETS]; return ref::make(s.f, s.n, s.w, s.h, s.d, s.k);
}
struct Key { Api a; Buf pk, sk; std::vector<Buf> sigs; Buf old; };
// The calls of a history: what to do next on which key. Returns false when there is nothing to call.
static bool next_call(std::vector<Key> &ks, int64_t op, Call &c, size_t *who, bool kin = false) {
    Bytes b(mix(op, 0xca11)); Key &k = ks[*who = (size_t)op % ks.size()]; int what = (int)(op / 8 % 16);
    c.a = k.a; c.rng = kin ? (size_t)op % ks.size() + op / 8192 % 7 == 0 ? 0 : 3 * (1 + b.below(KINS - 1)) : op / 4096 % 3; c.in.clear(); c.pk.clear(); c.sk.clear();
    if (k.sk.empty() || what == 0) { c.kind = KEYPAIR; return true; }
    if (what == 1) { k.old.swap(k.sk); if (k.sk.empty()) k.sk = k.old; return false; }        // back to (and forth from) an older copy
    if (what == 2) k.old = k.sk;
    if (what < 10 || k.sigs.empty()) { c.kind = SIGN; c.sk = k.sk; if (kin && op & 256) { c.in = Bytes(op / 512 % 3).get(op / 512 % 3 * 40); return true; } c.in = b.get(op / 128 % 4 ? b.below(70) : b.below(600)); return true; }
    c.kind = OPEN; c.pk = k.pk; c.in = k.sigs[b.below(k.sigs.size())];
    if (what == 13) c.in[b.below(c.in.size())] ^= 1 << b.below(8);
    if (what == 14) { Key &o = ks[b.below(ks.size())]; if (o.pk.size() == k.pk.size()) c.pk = o.pk; }
    if (kin && what == 12) { Key &o = ks[b.below(ks.size())]; if (!o.sigs.empty()) c.in = o.sigs[b.below(o.sigs.size())]; }
    if (what == 15) c.in.resize(b.below(c.in.size()));
    return true;
}
static void apply(Key &k, const Call &c, const Res &r) {
    if (c.kind == KEYPAIR && !r.r) { k.pk = r.pk; k.sk = r.sk; k.sigs.clear(); k.old.clear(); }
    if (c.kind == SIGN) { k.sk = r.sk; if (!r.r) k.sigs.push_back(r.out); }
}
static const char *kname(const Call &c) { return c.kind == KEYPAIR ? "key generation" : c.kind == SIGN ? "signing" : "verification"; }
static std::string flavour(const Case &c, bool mock, const char *pre = "") { return std::string(pre) + (mock ? "mock" : "") + (c["fast"] ? "fast" : "basic"); }
static int fam(const Case &c) { return c.v.count("fam") ? (int)c["fam"] : 0; }
static std::vector<Key> make_keys(const Lib &L, const Case &c, bool mock) {
    std::vector<Key> ks; for (int64_t s : c.lst("keys")) { if (c.v.count("kin") && !ks.empty()) s = c.lst("keys")[0]; Key k; k.a = api(L, param(mock, s, fam(c))); ks.push_back(k); if (ks.size() == 4) break; }
    if (ks.empty()) { Key k; k.a = api(L, param(mock, 0, fam(c))); ks.push_back(k); }
    while (c.v.count("kin") && ks.size() < 3) ks.push_back(ks[0]);
    return ks;
}
// Histories over several keys in one copy with a past, buffers shared or apart, at any alignment, stack and heap dirty.
static void interleave(const Case &c, Ctx &x) {
    bool mock = c["mock"]; if (mock && !get(flavour(c, true)).mock_ok) { x.skipped = true; return; }
    std::string fl = flavour(c, mock); Fresh here(fl); std::vector<Key> ks = make_keys(here.L, c, mock); static u8 *area = (u8 *)mmap(nullptr, 4 * AREA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    size_t n = 0, last = 99, switches = 0;
    for (int64_t op : c.lst("ops")) {
        Call cl; size_t who; if (!next_call(ks, op, cl, &who, c.v.count("kin"))) continue;
        int fill = (int)(op >> 7 & 0xff); mallopt(M_PERTURB, fill | 1); Res r; dirty_stack(fill);
        if (op >> 16 & 1) { Place pl; for (int i = 0; i < 4; i++) pl.p[i] = area + AREA * i + (op >> 17) % 64; r = perform(here.L, cl, pl, fill); }
        else r = apart(here.L, cl, fill, (size_t)(op >> 17));
        dirty_stack(0); Res w = alone(fl, cl);
        if (!(r == w)) fail("%s after %zu other calls: %s: %s", pname(cl.a.p), n, kname(cl), r.diff(w).c_str());
        apply(ks[who], cl, r); n++; if (who != last) switches++; last = who;
        x.label(std::string(kname(cl)) + (r.r ? " refused" : ""));
    }
    mallopt(M_PERTURB, 0);
    x.nontrivial = switches > 2 && ks.size() > 1; x.sample = std::to_string(ks.size()) + " keys, " + std::to_string(n) + " calls, " + std::to_string(switches) + " changes of key";
}

// ---- coroutines: calls on different keys are suspended inside the hash function and others continue
struct Co { ucontext_t uc; u8 *stk; Source *stream; std::vector<Call> calls; std::vector<Res> got; size_t at; bool done; };
static ucontext_t back; static Co *running; static int64_t slice; static uint64_t yields; static const Lib *co_lib;
static void on_yield() { yields++; if (running && --slice <= 0) { running->stream = stream; swapcontext(&running->uc, &back); } }
static void co_main() {
    Co *c = running;
    for (auto &cl : c->calls) { c->got.push_back(apart(*co_lib, cl, (int)(c->at * 37 & 0xff), c->at)); c->at++; }
    c->done = true; swapcontext(&c->uc, &back);
}
// every key's own history, each call alone
static void script(const std::string &fl, std::vector<Key> &ks, const Case &c, std::vector<std::vector<Call>> &calls, std::vector<std::vector<Res>> &want) {
    calls.assign(ks.size(), {}); want.assign(ks.size(), {});
    auto one = [&](int64_t op) {
        Call cl; size_t who; if (!next_call(ks, op, cl, &who) || (cl.kind != KEYPAIR && ks[who].sk.empty())) return;
        Res r = alone(fl, cl); apply(ks[who], cl, r); calls[who].push_back(cl); want[who].push_back(r);
    };
    for (size_t i = 0; i < ks.size(); i++) { int64_t v = (int64_t)i + (int64_t)ks.size() * 0; one(v + (int64_t)(c["same"] ? 0 : 4096 * ((i + 1) % 3))); }
    for (int64_t op : c.lst("ops")) one(op);
}
static void coroutines(const Case &c, Ctx &x) {
    bool mock = c["mock"]; if (mock && !get(flavour(c, true)).mock_ok) { x.skipped = true; return; }
    std::string fl = flavour(c, mock, "yield"); Fresh here(fl); const Lib &L = here.L;
    if (!L.yield) { x.skipped = true; return; }
    std::vector<Key> ks = make_keys(L, c, mock); if (ks.size() == 1) ks.push_back(ks[0]);
    std::vector<std::vector<Call>> calls; std::vector<std::vector<Res>> want; script(fl, ks, c, calls, want);
    const size_t STK = 1 << 20; static std::vector<u8 *> stacks;
    while (stacks.size() < ks.size()) { u8 *p = (u8 *)mmap(nullptr, STK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, 4096, PROT_NONE); stacks.push_back(p); }
    std::vector<std::unique_ptr<Co>> co; co_lib = &L; yields = 0;
    for (size_t i = 0; i < ks.size(); i++) {
        auto k = std::make_unique<Co>(); k->stk = stacks[i]; memset(k->stk + 4096, (int)(0x11 * i), STK); k->stream = nullptr; k->calls = calls[i]; k->at = 0; k->done = calls[i].empty();
        getcontext(&k->uc); k->uc.uc_stack.ss_sp = k->stk; k->uc.uc_stack.ss_size = STK + 4096; k->uc.uc_link = nullptr; makecontext(&k->uc, co_main, 0); co.push_back(std::move(k));
    }
    *L.yield = on_yield; if (L.mock_yield) *L.mock_yield = on_yield;
    Bytes b(c["s"]); uint64_t switches = 0; auto &sl = c.lst("slices"); size_t turn = 0;
    for (;;) {
        size_t left = 0; for (auto &k : co) left += !k->done;
        if (!left) break;
        size_t w = b.below(left), i = 0; for (; i < co.size(); i++) if (!co[i]->done && !w--) break;
        int64_t len = sl.empty() ? 1 : sl[turn++ % sl.size()]; slice = len <= 8 ? std::max<int64_t>(1, len) : 1 + (int64_t)b.below(len < 16 ? 3 : len < 32 ? 40 : len < 48 ? 1200 : 60000);
        running = co[i].get(); stream = running->stream; swapcontext(&back, &running->uc); running = nullptr; stream = nullptr; switches++;
    }
    *L.yield = nullptr; if (L.mock_yield) *L.mock_yield = nullptr;
    for (size_t i = 0; i < ks.size(); i++) for (size_t j = 0; j < calls[i].size(); j++)
        if (!(co[i]->got[j] == want[i][j])) fail("%s: %s, interrupted by calls on other keys: %s", pname(calls[i][j].a.p), kname(calls[i][j]), co[i]->got[j].diff(want[i][j]).c_str());
    x.label("switches inside calls", switches); x.label("points of interruption", yields);
    x.nontrivial = switches > 20; x.sample = std::to_string(ks.size()) + " keys, " + std::to_string(switches) + " switches at " + std::to_string(yields) + " possible points";
}
// ---- threads with keys of their own
static void threads(const Case &c, Ctx &x) {
    bool mock = c["mock"]; if (mock && !get(flavour(c, true)).mock_ok) { x.skipped = true; return; }
    std::string fl = flavour(c, mock); Fresh here(fl); std::vector<Key> ks = make_keys(here.L, c, mock); if (ks.size() == 1) ks.push_back(ks[0]);
    std::vector<std::vector<Call>> calls; std::vector<std::vector<Res>> want; script(fl, ks, c, calls, want);
    std::atomic<int> ready{0}, wrong{-1}; std::string why; std::vector<std::thread> t; uint64_t done = 0; std::atomic<uint64_t> total{0};
    const int T = 8, reps = (int)c["reps"]; std::atomic_flag once = ATOMIC_FLAG_INIT;
    for (int i = 0; i < T; i++) t.emplace_back([&, i] {
        size_t k = i % ks.size(); ready++; while (ready < T) std::this_thread::yield();
        for (int rep = 0; rep < reps && wrong < 0; rep++) for (size_t j = 0; j < calls[k].size(); j++) {
            Res r = apart(here.L, calls[k][j], rep & 0xff, i); total++;
            if (!(r == want[k][j])) { if (!once.test_and_set()) { why = std::string(pname(calls[k][j].a.p)) + ": " + kname(calls[k][j]) + ", with other threads at work: " + r.diff(want[k][j]); wrong = i; } return; }
        }
    });
    for (auto &h : t) h.join();
    done = total; if (wrong >= 0) fail("%s", why.c_str());
    x.label("calls", done); x.nontrivial = done > 16; x.sample = std::to_string(ks.size()) + " keys, 8 threads, " + std::to_string(done) + " calls";
}
// ---- a build with ThreadSanitizer: any unsynchronised access to shared storage
static int run_tsan(const std::string &bin, const std::vector<std::string> &args, std::string &out) {
    int p[2]; if (pipe(p)) return -1;
    pid_t pid = fork();
    if (!pid) {
        dup2(p[1], 1); dup2(p[1], 2); close(p[0]); close(p[1]); alarm(300); setenv("TSAN_OPTIONS", "exitcode=66:halt_on_error=1:report_bugs=1:history_size=2", 1);
        std::vector<char *> v{(char *)bin.c_str()}; for (auto &a : args) v.push_back((char *)a.c_str()); v.push_back(nullptr); execv(v[0], v.data()); _exit(97);
    }
    close(p[1]); char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) if (out.size() < 20000) out.append(b, n);
    close(p[0]); int st = 0; waitpid(pid, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
static void tsan(const Case &c, Ctx &x) {
    std::string key = std::string("tsan_") + (c["mock"] ? "mock" : "") + (c["fast"] ? "fast" : "basic"), bin = opt.args.count(key) ? opt.args[key] : "";
    if (bin.empty() || (c["mock"] && !get(flavour(c, true)).mock_ok)) { x.skipped = true; return; }
    static int usable = -1;                                              // 0 threads: does such a build start here at all?
    if (usable < 0) { std::string o; usable = run_tsan(bin, {"probe"}, o) == 0 && o.find("probe fine") != std::string::npos; }
    if (!usable) { x.skipped = true; x.label("ThreadSanitizer does not start here"); return; }
    std::vector<std::string> a{std::to_string(c["s"]), std::to_string(c["nsig"])};
    for (int64_t s : c.lst("keys")) {
        ref::P p = param(c["mock"], s, fam(c)); if (p.h > 20 && !c["mock"]) continue;
        char b[100]; snprintf(b, sizeof b, "%u,%d,%d,%u,%u,%u,%u,%u,%u", p.oid, (int)p.mt, p.func, p.n, p.w, p.h, p.d, p.k, p.pad); a.push_back(b); if (a.size() == 6) break;
    }
    while (a.size() < 4) a.push_back("0,0,0,32,16,2,1,0,32");
    std::string o; int r = run_tsan(bin, a, o);
    if (r == 66) {
        size_t at = o.find("WARNING: ThreadSanitizer"); std::string w = at == std::string::npos ? o : o.substr(at); size_t e = 0; for (int i = 0; i < 12 && e != std::string::npos; i++) e = w.find('\n', e + 1);
        fail("concurrent calls on different keys share storage: %s", w.substr(0, std::min<size_t>(e, 900)).c_str());
    }
    if (r == 1) fail("concurrent calls on different keys: %s", o.substr(0, 500).c_str());
    if (r) { x.skipped = true; x.label("ended with " + std::to_string(r)); return; }
    x.nontrivial = true; x.label("threads", a.size() - 2); x.sample = std::to_string(a.size() - 2) + " threads";
}
void eng::worker_init() {}
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto fm = [](int mock) { return std::vector<Fixed>{{{"fast", 0}, {"mock", mock}}, {{"fast", 1}, {"mock", mock}}}; };
    auto keys = [](int n) { return list("keys", n, {{1, 0, 1 << 20}}); }; auto ops = [](int n) { return list("ops", n, {{1, 0, 1LL << 30}}); };
    v.push_back({"interleave", {keys(6), ops(40)}, fm(0), T ? 400 : 20, 1, interleave}); v.back().max_shrink_s = 60;
    v.back().rule = "histories of calls over up to 4 keys of small custom sets (all hash functions, n, w), shared buffers, dirty stack and heap; every call is repeated alone in a fresh copy; non-trivial: at least two keys and three changes of key";
    v.push_back({"interleave-oid", {keys(6), ops(60), num("fam", 0, 2)}, fm(1), T ? 600 : 50, 2, interleave}); v.back().max_shrink_s = 60;
    v.back().rule = "the same with standard identifiers (cheap one-time functions)";
    auto kin = [](std::vector<Fixed> f) { for (auto &e : f) e["kin"] = 1; return f; };
    v.push_back({"kin", {keys(3), ops(40)}, kin(fm(0)), T ? 400 : 16, 1, interleave}); v.back().max_shrink_s = 60;
    v.back().rule = "histories over keys of one set that agree in their random input except for one seed, its first, last or middle byte or all but its beginning, signing the same messages; verification of one key's signatures under the other's public key";
    v.push_back({"kin-oid", {keys(3), ops(60)}, kin(fm(1)), T ? 600 : 40, 2, interleave}); v.back().max_shrink_s = 60;
    v.back().rule = "the same with standard identifiers (cheap one-time functions)";
    Field fam = num("fam", 0, 2); Field sl = list("slices", 6, {{2, 1, 1}, {1, 2, 8}, {3, 9, 64}}), same = num("same", 0, 1);
    v.push_back({"coroutines", {keys(4), ops(14), sl, same, seed("s")}, fm(0), T ? 400 : 24, 1, coroutines}); v.back().max_shrink_s = 60;
    v.back().rule = "calls on different keys interrupted inside hash computations by each other under a generated schedule; non-trivial: more than 20 switches";
    v.push_back({"coroutines-oid", {keys(4), ops(24), sl, same, fam, seed("s")}, fm(1), T ? 400 : 30, 2, coroutines}); v.back().max_shrink_s = 60;
    v.back().rule = "the same with standard identifiers, also switching inside the cheap one-time functions";
    auto lim = [&](std::vector<Fixed> a, std::vector<Fixed> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    v.push_back({"threads", {keys(4), ops(10), same, fam, num("reps", T ? 20 : 6, T ? 40 : 12)}, lim(fm(0), fm(1)), T ? 40 : 3, 1, threads}); v.back().workers = 2; v.back().max_shrinks = 10;
    v.back().rule = "eight threads repeat the calls of up to 4 keys at the same time";
    v.push_back({"tsan", {seed("s"), keys(4), fam, num("nsig", 1, T ? 6 : 3)}, lim(fm(0), fm(1)), T ? 60 : 6, 1, tsan}); v.back().max_shrinks = 12;
    v.back().rule = "threads with keys of their own in a build with ThreadSanitizer: key generation, signatures, verification";
    return v;
}
