#include "lib.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <algorithm>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace lib {
static Buf drawn_; static std::vector<size_t> calls_; static eng::Bytes stream_{0}; static Buf fixed_; static size_t fixpos_;
static void rng_cb(u8 *x, ull n) {
    calls_.push_back((size_t)n);
    for (ull i = 0; i < n; i++) {
        if (fixpos_ < fixed_.size()) x[i] = fixed_[fixpos_++];
        else x[i] = (u8)(stream_.next() >> 24);
        drawn_.push_back(x[i]);
    }
}
void Rng::seed(uint64_t s) { stream_ = eng::Bytes(eng::mix(s, 0x726e67)); drawn_.clear(); calls_.clear(); fixed_.clear(); fixpos_ = 0; }
void Rng::fixed(const Buf &b) { seed(1); fixed_ = b; }
const Buf &Rng::drawn() { return drawn_; }
const std::vector<size_t> &Rng::calls() { return calls_; }

static bool api_has(const char *f) {     // --missing=a,b,c: functions that the tree no longer declares this way
    static std::string m = "," + eng::opt.args["missing"] + ",";
    return m.find(std::string(",") + f + ",") == std::string::npos;
}
template <class T> static void need(void *h, T &f, const char *n) {
    f = (T)dlsym(h, n);
    if (!f || !api_has(n)) { fprintf(stderr, "library has no %s\n", n); exit(3); }
}
template <class T> static void want(void *h, T &f, const char *n) { f = api_has(n) ? (T)dlsym(h, n) : nullptr; }

Lib load(const std::string &path, const std::string &flavour) {
    Lib l; l.name = flavour; l.fast = flavour.find("fast") != std::string::npos; l.mock = flavour.find("mock") != std::string::npos;
    void *h = l.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    need(h, l.xmss_keypair, "xmss_keypair"); need(h, l.xmss_sign, "xmss_sign"); need(h, l.xmss_sign_open, "xmss_sign_open");
    need(h, l.xmssmt_keypair, "xmssmt_keypair"); need(h, l.xmssmt_sign, "xmssmt_sign"); need(h, l.xmssmt_sign_open, "xmssmt_sign_open");
    need(h, l.xmss_str_to_oid, "xmss_str_to_oid"); need(h, l.xmssmt_str_to_oid, "xmssmt_str_to_oid");
    need(h, l.xmss_parse_oid, "xmss_parse_oid"); need(h, l.xmssmt_parse_oid, "xmssmt_parse_oid");
    need(h, l.initialize_params, "xmss_xmssmt_initialize_params"); need(h, l.sk_bytes, "xmss_xmssmt_core_sk_bytes");
    need(h, l.core_keypair[0], "xmss_core_keypair"); need(h, l.core_keypair[1], "xmssmt_core_keypair");
    need(h, l.core_sign[0], "xmss_core_sign"); need(h, l.core_sign[1], "xmssmt_core_sign");
    need(h, l.core_open[0], "xmss_core_sign_open"); need(h, l.core_open[1], "xmssmt_core_sign_open");
    want(h, l.core_seed_keypair, "xmssmt_core_seed_keypair");
    want(h, l.prf, "prf"); want(h, l.prf_keygen, "prf_keygen"); want(h, l.thash_h, "thash_h"); want(h, l.thash_f, "thash_f");
    want(h, l.hash_message, "hash_message"); want(h, l.wots_pkgen, "wots_pkgen"); want(h, l.wots_sign, "wots_sign");
    want(h, l.wots_pk_from_sig, "wots_pk_from_sig"); want(h, l.gen_leaf_wots, "gen_leaf_wots");
    want(h, l.shake128, "shake128"); want(h, l.shake256, "shake256");
    want(h, l.ull_to_bytes, "ull_to_bytes"); want(h, l.bytes_to_ull, "bytes_to_ull"); want(h, l.randombytes, "randombytes");
    want(h, l.set_rng, "verif_set_rng"); want(h, l.mock_calls, "verif_mock_calls"); want(h, l.wots_log, "verif_wots_log");
    want(h, l.yield, "verif_yield"); want(h, l.mock_yield, "verif_mock_yield");
    if (l.set_rng) l.set_rng(rng_cb);
    return l;
}
const Lib &get(const std::string &flavour) {
    static std::map<std::string, Lib> all;
    auto it = all.find(flavour);
    if (it != all.end()) return it->second;
    std::string path = eng::opt.args["so_" + flavour];
    if (path.empty()) { fprintf(stderr, "no --so_%s given\n", flavour.c_str()); exit(3); }
    Lib l = load(path, flavour);
    all[flavour] = l;
    if (l.mock) probe_mock(flavour);
    // probe_mock works on the stored object
    return all[flavour];
}

// The mock build replaces WOTS+ and the tree hash at link level. That only works while the callers reach them
// across translation units; whether they do is found out here, by counting.
void probe_mock(const std::string &flavour) {
    Lib &l = const_cast<Lib &>(get(flavour));
    l.mock_ok = false;
    ref::P p = ref::make(ref::SHA2, 32, 16, 4, 2);
    Api a = custom(l, p);
    Buf pk(a.pk), sk(a.sk), sm(a.sig + 1), m(a.sig + 1); ull n = 0, ml = 0; u8 msg = 1;
    ull c0[4]; memcpy(c0, l.mock_calls, sizeof c0);
    Rng::seed(7);
    if (a.keypair(pk.data(), sk.data())) return;
    ull c1[4]; memcpy(c1, l.mock_calls, sizeof c1);
    if (c1[0] - c0[0] < 4 || (c1[3] - c0[3]) < 4 * 66) return;
    if (a.sign(sk.data(), sm.data(), &n, &msg, 1)) return;
    ull c2[4]; memcpy(c2, l.mock_calls, sizeof c2);
    if (c2[1] == c1[1] || c2[3] == c1[3]) return;
    (void)a.open(m.data(), &ml, sm.data(), n, pk.data());
    if (l.mock_calls[2] - c2[2] < 2 || l.mock_calls[3] - c2[3] < 2 * 66) return;
    l.mock_ok = true;
}

bool mocks_reached() {
    static int known = -1; if (known >= 0) return known;
    fflush(nullptr); pid_t k = fork(); if (k < 0) return known = 1;
    if (!k) _exit(get("mockfast").mock_ok && get("mockbasic").mock_ok ? 0 : 1);
    int st = 0; waitpid(k, &st, 0); return known = WIFEXITED(st) && !WEXITSTATUS(st);
}
void more_real(std::vector<eng::Stage> &v, int times) {
    if (eng::opt.thorough || mocks_reached()) return;
    for (auto &s : v) if (s.name.find("real") != std::string::npos) s.cases *= times;
}

xmss_params lib_params(const Lib &L, const ref::P &p) {
    xmss_params x; memset(&x, 0, sizeof x);
    if (p.oid) {
        if ((p.mt ? L.xmssmt_parse_oid : L.xmss_parse_oid)(&x, p.oid)) eng::fail("%s (OID %u) is refused", pname(p), p.oid);
    } else {
        x.func = p.func; x.n = p.n; x.wots_w = p.w; x.full_height = p.h; x.d = p.d; x.bds_k = p.k; x.padding_len = p.pad;
        if (L.initialize_params(&x)) eng::fail("parameters %s are refused", pname(p));
    }
    return x;
}
static Api mk(const Lib &L, const ref::P &p) {
    Api a; a.L = &L; a.p = p; a.p.mock = L.mock; a.oid = p.oid != 0; a.off = a.oid ? 4 : 0; a.family = p.oid ? p.mt : p.d > 1;
    a.prm = lib_params(L, p);
    a.sig = a.prm.sig_bytes; a.pk = a.prm.pk_bytes + a.off; a.sk = a.prm.sk_bytes + a.off;
    if (a.sig != p.sigb || a.prm.pk_bytes != 2 * p.n || a.prm.sk_bytes < p.idxb + 4 * p.n)
        eng::fail("%s: announced sizes sig=%zu pk=%u sk=%llu, standard has sig=%u pk=%u", pname(p), a.sig, a.prm.pk_bytes, a.prm.sk_bytes, p.sigb, 2 * p.n);
    return a;
}
Api by_oid(const Lib &L, const ref::P &p) { return mk(L, p); }
Api custom(const Lib &L, const ref::P &p) { ref::P q = p; q.oid = 0; return mk(L, q); }
Api api(const Lib &L, const ref::P &p) { return mk(L, p); }

int Api::keypair(u8 *pk_, u8 *sk_) const {
    if (oid) return (family ? L->xmssmt_keypair : L->xmss_keypair)(pk_, sk_, p.oid);
    return L->core_keypair[family](&prm, pk_, sk_);
}
int Api::sign(u8 *sk_, u8 *sm, ull *smlen, const u8 *m, ull mlen) const {
    if (oid) return (family ? L->xmssmt_sign : L->xmss_sign)(sk_, sm, smlen, m, mlen);
    return L->core_sign[family](&prm, sk_, sm, smlen, m, mlen);
}
int Api::open(u8 *m, ull *mlen, const u8 *sm, ull smlen, const u8 *pk_) const {
    if (oid) return (family ? L->xmssmt_sign_open : L->xmss_sign_open)(m, mlen, sm, smlen, pk_);
    return L->core_open[family](&prm, m, mlen, sm, smlen, pk_);
}
KeyPair make_key(const Api &a, uint64_t seed) {
    KeyPair k; k.pk.assign(a.pk, 0x5c); k.sk.assign(a.sk, 0x5c);
    Rng::seed(seed);
    int r = a.keypair(k.pk.data(), k.sk.data());
    if (r) eng::fail("%s: key generation returns %d", pname(a.p), r);
    return k;
}
ref::Key model_of(const Api &a, const u8 *sk) {
    const u8 *s = sk + a.off + a.p.idxb; unsigned n = a.p.n;
    return ref::Key(a.p, Buf(s, s + n), Buf(s + n, s + 2 * n), Buf(s + 3 * n, s + 4 * n));
}
KeyPair plain_key(const Api &a, ref::Key &k, uint64_t idx) {
    KeyPair r; unsigned n = a.p.n;
    r.sk.assign(a.sk, 0); r.pk.assign(a.pk, 0);
    if (a.oid) { ref::to_bytes(r.sk.data(), 4, a.p.oid); ref::to_bytes(r.pk.data(), 4, a.p.oid); }
    u8 *s = r.sk.data() + a.off + a.p.idxb, *q = r.pk.data() + a.off;
    a.set_index(r.sk.data(), idx);
    memcpy(s, k.skseed.data(), n); memcpy(s + n, k.skprf.data(), n); memcpy(s + 2 * n, k.compute_root().data(), n); memcpy(s + 3 * n, k.seed.data(), n);
    memcpy(q, k.root.data(), n); memcpy(q + n, k.seed.data(), n);
    return r;
}

// ---------------------------------------------------------------- memory
Guard::Guard(size_t n_, bool front, int fill) : n(n_) {
    const size_t pg = 4096;
    pages = (n + pg - 1) / pg * pg; if (!pages) pages = pg;
    maplen = pages + 2 * pg;
    map = (u8 *)mmap(nullptr, maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); exit(3); }
    mprotect(map + pg, pages, PROT_READ | PROT_WRITE);
    u8 *lo0 = map + pg;
    p = front ? lo0 : lo0 + pages - n;
    lo = lo0; lolen = p - lo0; hi = p + n; hilen = lo0 + pages - hi;
    if (pages <= (64u << 20)) memset(lo0, fill, pages);
    memset(lo, 0xC3, lolen); memset(hi, 0xC3, hilen);
}
Guard::~Guard() { munmap(map, maplen); }
bool Guard::slack_ok() const {
    for (size_t i = 0; i < lolen; i++) if (lo[i] != 0xC3) return false;
    for (size_t i = 0; i < hilen; i++) if (hi[i] != 0xC3) return false;
    return true;
}
void Guard::readonly(bool on) { mprotect(map + 4096, pages, on ? PROT_READ : PROT_READ | PROT_WRITE); }

Repeat::Repeat(size_t n_, size_t block, size_t ends) : n(n_) {
    len = (n + 4095) / 4096 * 4096;
    fd = (int)syscall(SYS_memfd_create, "repeat", 0);
    p = (u8 *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (fd < 0 || p == MAP_FAILED || ftruncate(fd, block)) { fprintf(stderr, "cannot map a large area\n"); exit(3); }
    for (size_t o = ends; o + ends < len; o += block) {
        size_t k = std::min(block, len - ends - o);
        if (mmap(p + o, k, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "cannot map a large area\n"); exit(3); }
    }
}
Repeat::~Repeat() { munmap(p, len); close(fd); }

static thread_local sigjmp_buf jb; static thread_local volatile int armed; static thread_local void *volatile fault_addr;
static void on_fault(int sig, siginfo_t *si, void *) {
    if (armed) { armed = 0; fault_addr = si->si_addr; siglongjmp(jb, sig); }
    signal(sig, SIG_DFL); raise(sig);
}
bool guarded(const std::function<void()> &f, void **addr) {
#if defined(__SANITIZE_ADDRESS__)
    (void)addr; f(); return true;
#else
    static thread_local bool init = false;
    if (!init) {
        stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
        init = true;
    }
    if (sigsetjmp(jb, 1)) { if (addr) *addr = (void *)fault_addr; return false; }
    armed = 1; f(); armed = 0;
    return true;
#endif
}

std::vector<eng::Fixed> strata_standard(bool mt_too) {
    std::vector<eng::Fixed> v; auto &s = ref::standard();
    for (size_t i = 0; i < s.size(); i++) if (mt_too || !s[i].mt) v.push_back({{"ps", (int64_t)i}});
    return v;
}
const char *pname(const ref::P &p) {
    static thread_local char b[128];
    if (p.oid) return p.name.c_str();
    snprintf(b, sizeof b, "func=%d,n=%u,w=%u,h=%u,d=%u,k=%u", p.func, p.n, p.w, p.h, p.d, p.k);
    return b;
}
uint64_t tree_mask(const ref::P &p) { return (1ULL << p.th) - 1; }
uint64_t last_index(const ref::P &p) { uint64_t l = (1ULL << p.h) - 1; return p.h == 8 * p.idxb ? l - 1 : l; }
unsigned crossings(const ref::P &p, uint64_t idx) {
    unsigned c = 0;
    while (c < p.d && ((idx >> (c * p.th)) & tree_mask(p)) == tree_mask(p)) c++;
    return c;
}
std::vector<eng::Field> index_fields() { return {eng::num("im", 0, 5), eng::seed("ia"), eng::num("ib", -2, 2)}; }
uint64_t pick_index(const ref::P &p, const eng::Case &c) {
    uint64_t last = last_index(p), a = (uint64_t)c["ia"]; int64_t b = c["ib"]; uint64_t r = a * 0x9E3779B97F4A7C15ULL;
    uint64_t v;
    switch (c["im"]) {
    case 0: v = a % 8; break;
    case 1: v = r >> (64 - p.h); break;                                     // anywhere
    case 2: v = last - a % 8; break;                                        // the end
    case 3: { unsigned l = 1 + (unsigned)(a % p.d); if (l == p.d && p.d > 1) l--;   // around the end of a tree on layer l-1
              uint64_t t = 1ULL << (l * p.th); if (l * p.th >= p.h) t = 1ULL << (p.h - 1);
              uint64_t k = (r >> 20) % ((1ULL << p.h) / t); v = (k + 1) * t - 1 + b; break; }
    case 4: v = ((uint64_t)1 << (r >> 32) % p.h) + b; break;                // around powers of two
    default: v = (r >> (64 - p.h)) | ((1ULL << ((a >> 3) % p.h)) - 1); v += b; break;   // long runs of ones
    }
    if ((int64_t)v < 0) v = 0;
    return v > last ? last : v;
}
std::vector<eng::Field> message_fields(int64_t max) {
    return {eng::num("ml", {{6, 0, 200}, {2, 0, std::min<int64_t>(max, 700)}, {1, 0, max}}), eng::seed("ms")};
}
Buf message(const eng::Case &c) { return eng::Bytes(c["ms"]).get(c["ml"]); }
void model_ready() { std::string w; if (!ref::selftest(w)) { fprintf(stderr, "%s\n", w.c_str()); exit(3); } }
ref::Key &cached_key(const ref::P &p, uint64_t seed) {
    struct E { ref::P p; uint64_t seed; std::unique_ptr<ref::Key> k; uint64_t used; };
    static std::vector<E> cache; static uint64_t tick;
    for (auto &e : cache)
        if (e.seed == seed && e.p.func == p.func && e.p.n == p.n && e.p.w == p.w && e.p.h == p.h && e.p.d == p.d && e.p.mock == p.mock) { e.used = ++tick; return *e.k; }
    if (cache.size() >= 6) {
        size_t o = 0; for (size_t i = 1; i < cache.size(); i++) if (cache[i].used < cache[o].used) o = i;
        cache.erase(cache.begin() + o);
    }
    eng::Bytes b(eng::mix(seed, 0x6b6579));
    Buf s1 = b.get(p.n), s2 = b.get(p.n), s3 = b.get(p.n);
    cache.push_back({p, seed, std::make_unique<ref::Key>(p, s1, s2, s3), ++tick});
    return *cache.back().k;
}
} // namespace lib
