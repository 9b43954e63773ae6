// C13: the random source delivers every requested byte despite faults. Every system call it makes is answered by a script.
#include "lib.hpp"
#include <cerrno>
#include <csetjmp>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <sched.h>
#include <thread>
#include <unordered_map>
using namespace eng; using namespace lib;

struct Os { int (*open)(const char *, int); long (*read)(int, void *, size_t); int (*close)(int); long (*random)(void *, size_t); void (*sleep)(); };
// ---- the scripted operating system
static std::vector<int64_t> opens_, reads_; static size_t opos, rpos; static uint64_t stream, offset_, calls, sleeps, limit; static int fdnum; static bool fd_open, fd_zero, cheap;
static sigjmp_buf out_of_patience;
static u8 byte_at(uint64_t i) { uint64_t z = (i >> 3) + stream; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31; return (u8)(z >> 8 * (i & 7)); }
static void put(void *b, size_t n) {
    u8 *o = (u8 *)b;
    if (!cheap) { for (size_t i = 0; i < n; i++) o[i] = byte_at(offset_ + i); }
    else {          // every byte of 64 KiB blocks from one pattern, plus the block's number
        for (size_t i = 0; i < n;) { uint64_t at = offset_ + i; if (at % 8 == 0 && n - i >= 8) { uint64_t w = at * 0x9E3779B97F4A7C15ULL + stream; memcpy(o + i, &w, 8); i += 8; } else { uint64_t w = (at & ~7ULL) * 0x9E3779B97F4A7C15ULL + stream; o[i] = (u8)(w >> 8 * (at & 7)); i++; } }
    }
    offset_ += n;
}
static void tick() { if (++calls > limit) siglongjmp(out_of_patience, 1); }
static int os_open(const char *p, int fl) {
    tick(); static const int errs[] = {EMFILE, ENFILE, EINTR, ENOENT, EACCES, ENOMEM};
    if (opos < opens_.size()) { int64_t o = opens_[opos++]; if (o >= 0) { errno = errs[o % 6]; return -1; } }
    fd_zero = strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random"); if ((fl & O_ACCMODE) == O_WRONLY) { errno = EACCES; return -1; }
    fd_open = true; return fdnum;
}
static long deliver(void *b, size_t n) {
    static const int errs[] = {EINTR, EAGAIN, EIO, EFAULT, EBADF};
    if (!n) return 0;
    if (rpos < reads_.size()) {
        int64_t r = reads_[rpos++];
        if (r <= -2) { errno = errs[-(r + 2) % 5]; return -1; }
        if (r == -1) return 0;
        if (r > 0) { n = std::min<size_t>(n, r); }            // r bytes only; 0: everything asked for
    }
    if (fd_zero) memset(b, 0, n); else put(b, n);
    return (long)n;
}
static long os_read(int fd, void *b, size_t n) { tick(); if (!fd_open || fd != fdnum) { errno = EBADF; return -1; } return deliver(b, n); }
static long os_random(void *b, size_t n) { tick(); return deliver(b, n); }
static int os_close(int fd) { tick(); if (fd != fdnum || !fd_open) { errno = EBADF; return -1; } fd_open = false; return 0; }
static void os_sleep() { sleeps++; tick(); }

// ---- a freshly loaded copy, so that every case starts without an open source
struct Fresh {
    void *h; void (*randombytes)(u8 *, ull);
    Fresh() {
        std::string path = opt.args["so_os"];
        h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
        *(void **)&randombytes = dlsym(h, "randombytes"); auto set = (void (*)(const Os *))dlsym(h, "verif_set_os");
        if (!randombytes || !set) { fprintf(stderr, "no randombytes\n"); exit(3); }
        Os o = {os_open, os_read, os_close, os_random, os_sleep}; set(&o);
    }
    ~Fresh() { dlclose(h); if (dlopen(opt.args["so_os"].c_str(), RTLD_NOLOAD | RTLD_NOW)) { fprintf(stderr, "library cannot be unloaded\n"); exit(3); } }
};
static void start(uint64_t s, int fd, const std::vector<int64_t> &o, const std::vector<int64_t> &r) {
    opens_ = o; reads_ = r; opos = rpos = 0; stream = mix(s, 0x05); offset_ = calls = sleeps = 0; fdnum = fd; fd_open = fd_zero = cheap = false; limit = 0;
}
// One request; `used` is the first position of the source that may still be handed out.
static void request(Fresh &f, size_t n, bool front, uint64_t &used, const char *what, Ctx &x) {
    Guard g(n, front, 0x6d); limit = calls + opens_.size() + reads_.size() + 2 * n + 2000;
    uint64_t from = offset_;
    if (sigsetjmp(out_of_patience, 1)) fail("%s: request for %zu bytes does not end although the source is healthy again (%llu calls)", what, n, (ull)calls);
    if (!guarded([&] { f.randombytes(g.p, n); })) fail("%s: request for %zu bytes writes outside the area", what, n);
    if (!g.slack_ok()) fail("%s: request for %zu bytes writes next to the area", what, n);
    if (!n) return;
    auto at = [&](uint64_t o) { for (size_t i = 0; i < n; i++) if (g.p[i] != byte_at(o + i)) return false; return true; };
    if (from >= used && at(from)) { used = from + n; x.label("exact"); return; }
    // A source read ahead or skipped over is fine too, as long as the bytes are consecutive and not handed out before.
    for (uint64_t o = used; o + n <= offset_; o++) if (at(o)) { used = o + n; x.label("with other positions"); return; }
    size_t i = 0; while (i < n && g.p[i] == byte_at(from + i)) i++;
    fail("%s: request for %zu bytes: byte %zu is %02x, not the source's next byte", what, n, i, g.p[i]);
}
static std::string show(const std::vector<int64_t> &v) { std::string s; for (int64_t r : v) s += (s.empty() ? "" : ",") + (r <= -2 ? std::string("error") : r == -1 ? "empty" : r == 0 ? "full" : std::to_string(r)); return s.empty() ? "healthy" : s; }
static void body(const Case &c, Ctx &x, const std::vector<size_t> &sizes, const std::vector<int64_t> &o, const std::vector<int64_t> &r) {
    start(c["s"], (int)c["fd"], o, r); Fresh f; uint64_t used = 0; std::string what = "opens failing " + std::to_string(std::count_if(o.begin(), o.end(), [](int64_t v) { return v >= 0; })) + ", reads " + show(r);
    for (size_t i = 0; i < sizes.size(); i++) request(f, sizes[i], (c["front"] >> (i % 20)) & 1, used, what.c_str(), x);
    bool fault = opos > 0; for (size_t i = 0; i < rpos; i++) { fault |= r[i] != 0; x.label(r[i] <= -2 ? "read error" : r[i] == -1 ? "empty read" : r[i] ? "short read" : "full read"); }
    x.nontrivial = fault; x.sample = what + "; sizes " + [&] { std::string t; for (size_t k : sizes) t += std::to_string(k) + " "; return t; }();
}
// all fault sequences over {error, empty, 1, 2, full} of a given length, for all small sizes
static void exhaust(const Case &c, Ctx &x) {
    static const int64_t val[] = {-2, -1, 1, 2, 0}; int len = (int)c["len"], total = 1; for (int i = 0; i < len; i++) total *= 5;
    Ctx sub;
    for (int code = 0; code < total; code++) for (int op = 0; op <= 2; op++) for (size_t n = 0; n <= 5; n++) {
        if (op == 2 && code % 7) continue;
        std::vector<int64_t> r; for (int i = 0, k = code; i < len; i++, k /= 5) r.push_back(val[k % 5]);
        body(c, sub, {n, 3, n}, std::vector<int64_t>(op, code % 6), r); x.label("sequences");
    }
    x.nontrivial = true; x.sample = "all sequences of " + std::to_string(len) + " read results, 0-2 failing opens, sizes 0..5,3,0..5";
}
static void gen(const Case &c, Ctx &x) {
    std::vector<size_t> sizes; for (int64_t z : c.lst("sizes")) { int64_t m = z & 3, v = z >> 2; sizes.push_back(m == 0 ? v % 4 : m == 1 ? v % 300 : m == 2 ? v % 3 * 32 + 64 : v % 5000); }
    std::vector<int64_t> r; for (int64_t z : c.lst("reads")) r.push_back(z < 0 ? z : z & 1 ? (z >> 1) % 40 : (z >> 1) % 3000);
    body(c, x, sizes, c.lst("opens"), r);
}
// sizes around the reader's block size, with short reads at its ends
static void large(const Case &c, Ctx &x) {
    int64_t v = c["v"]; size_t n = ((size_t)1 << (18 + v % 5)) * (1 + v / 5 % 3) + (size_t)(c["d"]);
    if (v % 5 == 4) n = ((size_t)1 << 20) * (1 + v / 5 % 3) + (size_t)c["d"];
    std::vector<int64_t> r; for (int64_t z : c.lst("reads")) r.push_back(z < 0 ? z : z % 4 == 0 ? 0 : z % 4 == 1 ? (1 << 20) - z / 4 % 5 : z % 4 == 2 ? 1 + z / 4 % 5 : 1 + z / 4 % (1 << 20));
    body(c, x, {n, 5}, c.lst("opens"), r);
}
// beyond 2^31 and 2^32
static void huge(const Case &c, Ctx &x) {
    size_t n = ((size_t)1 << c["bits"]) + (size_t)c["d"]; start(c["s"], 5, {}, {-2, 0, 7, -1}); cheap = true; limit = n + 10000; Fresh f; const size_t B = 16 << 20, E = 1 << 21; Repeat g(n, B, E);
    if (sigsetjmp(out_of_patience, 1)) fail("request for %zu bytes does not end", n);
    if (!guarded([&] { f.randombytes(g.p, n); })) fail("request for %zu bytes writes outside the area", n);
    if (offset_ < n) fail("request for %zu bytes takes only %llu from the source", n, (ull)offset_);
    auto chk = [&](size_t i) { uint64_t w = (i & ~7ULL) * 0x9E3779B97F4A7C15ULL + stream; if (g.p[i] != (u8)(w >> 8 * (i & 7))) fail("request for %zu bytes: byte %zu is not the source's", n, i); };
    if (offset_ == n) { for (size_t i = 0; i < E; i++) chk(i); for (size_t i = n - E + 4096; i < n; i++) chk(i); }
    x.nontrivial = true; x.sample = std::to_string(n) + " bytes";
}
// Several users of one source: no eight consecutive bytes are handed out twice, to whomever.
struct Handed {
    std::unordered_map<uint64_t, std::string> win;
    void add(const u8 *p, size_t n, const std::string &who) {
        for (size_t i = 0; i + 8 <= n; i++) { uint64_t w; memcpy(&w, p + i, 8); auto r = win.emplace(w, who); if (!r.second) fail("bytes %zu to %zu of %s have been handed out before, to %s", i, i + 7, who.c_str(), r.first->second.c_str()); }
    }
};
static size_t shared_size(int64_t z) { return 8 + (z & 3 ? (z >> 2) % 300 : (z >> 2) % 5000); }
// processes forked in between
static void forks(const Case &c, Ctx &x) {
    static u8 *area; const size_t A = 1 << 20; if (!area) area = (u8 *)mmap(nullptr, A, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t *pos = (uint64_t *)area; start(c["s"], (int)c["fd"], {}, {}); Fresh f; Handed h; auto &ops = c.lst("ops"); unsigned kids = 0; limit = ~0ULL;
    auto one = [&](int64_t z, u8 *to) { size_t n = shared_size(z); f.randombytes(to, n); return n; };
    std::vector<u8> b(8192);
    for (size_t i = 0; i < ops.size(); i++) {
        int64_t z = ops[i];
        if ((z >> 20) % 3) { size_t n = one(z, b.data()); h.add(b.data(), n, "request " + std::to_string(i) + " of the first process"); continue; }
        kids++; pid_t p = fork();                                                  // the child makes two requests; the source goes on after them
        if (!p) { size_t n = one(z, area + 64), k = one(z >> 3, area + 64 + n); pos[0] = offset_; pos[1] = n; pos[2] = k; _exit(0); }
        int st; if (p < 0 || waitpid(p, &st, 0) != p) { x.skipped = true; return; }
        if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("a forked process that asks for random bytes is killed by signal %d", WTERMSIG(st));
        offset_ = std::max(offset_, pos[0]); std::string w = "forked process " + std::to_string(kids); h.add(area + 64, pos[1], "request 0 of " + w); h.add(area + 64 + pos[1], pos[2], "request 1 of " + w);
    }
    x.nontrivial = kids > 0 && ops.size() > kids; x.label("forked processes", kids); x.sample = std::to_string(ops.size()) + " operations, " + std::to_string(kids) + " forked processes";
}
// threads
static std::mutex os_lock; static std::atomic<uint64_t> turn;
static long slow_read(int fd, void *b, size_t n) {
    uint64_t t = mix(turn++, stream); for (unsigned i = 0; i < t % 4; i++) sched_yield();
    long r; { std::lock_guard<std::mutex> g(os_lock); if (fd != fdnum) { errno = EBADF; return -1; } put(b, n); r = (long)n; }
    for (unsigned i = 0; i < t / 4 % 4; i++) sched_yield();
    return r;
}
static int slow_open(const char *, int) { sched_yield(); return fdnum; }
static void threads(const Case &c, Ctx &x) {
    start(c["s"], (int)c["fd"], {}, {}); fd_open = true; Fresh f; Os o = {slow_open, slow_read, [](int) { return 0; }, [](void *b, size_t n) { return slow_read(fdnum, b, n); }, [] { sched_yield(); }}; auto set = (void (*)(const Os *))dlsym(f.h, "verif_set_os"); set(&o);
    int n = (int)c["n"], k = (int)c["k"]; std::vector<std::vector<Buf>> got(n); std::vector<std::thread> ts; std::atomic<int> ready{0}; limit = ~0ULL;
    if (c["warm"]) { Buf w(9); f.randombytes(w.data(), 9); }
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] { ready++; while (ready < n) sched_yield(); for (int i = 0; i < k; i++) { Buf b(shared_size((int64_t)(mix(c["s"] + t, i) >> 1))); f.randombytes(b.data(), b.size()); got[t].push_back(std::move(b)); } });
    for (auto &t : ts) t.join();
    Handed h; for (int t = 0; t < n; t++) for (int i = 0; i < k; i++) h.add(got[t][i].data(), got[t][i].size(), "request " + std::to_string(i) + " of thread " + std::to_string(t));
    x.nontrivial = n > 1 && k > 0; x.label("requests", n * k); x.sample = std::to_string(n) + " threads, " + std::to_string(k) + " requests each";
}
void eng::worker_init() {}
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    std::vector<Fixed> h; h.push_back({{"bits", 32}}); if (T) h.push_back({{"bits", 31}});
    v.push_back({"huge", {seed("s"), num("d", 0, 100000)}, h, 1, 1, huge}); v.back().max_shrinks = 2; v.back().hang_s = 400; v.back().rule = "requests of 2^32 (2^31) bytes and more, with faults at the start";
    std::vector<Fixed> e; for (int l = 0; l <= (T ? 6 : 4); l++) for (int fd : {3, 0}) e.push_back({{"len", l}, {"fd", fd}});
    v.push_back({"exhaust", {seed("s"), num("front", 0, (1 << 20) - 1)}, e, T ? 2 : 1, 1, exhaust}); v.back().max_shrinks = 10;
    v.back().rule = "every sequence of up to 4 (6) read results out of {error, empty, 1 byte, 2 bytes, all}, 0 to 2 failing opens, sizes 0 to 5, three requests each";
    Field opens = list("opens", 4, {{1, 0, 5}}), fd = num("fd", {{3, 3, 900}, {1, 0, 2}}), front = num("front", 0, (1 << 20) - 1);
    v.push_back({"gen", {seed("s"), fd, front, opens, list("reads", 20, {{2, -6, -1}, {5, 0, 1 << 20}}), list("sizes", 10, {{1, 0, 1 << 20}})}, {}, T ? 1000000 : 40000, 500, gen}); v.back().max_shrinks = 2000;
    v.back().rule = "sequences of requests with generated faults (errors, empty and short reads, failing opens); non-trivial: at least one fault met";
    v.push_back({"forks", {seed("s"), fd, list("ops", 12, {{1, 0, 1LL << 40}})}, {}, T ? 20000 : 600, 20, forks}); v.back().max_shrinks = 300;
    v.back().rule = "requests in one process and in processes forked in between: nothing is handed out twice; non-trivial: a request besides those of a forked process";
    v.push_back({"threads", {seed("s"), fd, num("n", 1, 5), num("k", 0, 30), num("warm", 0, 1)}, {}, T ? 8000 : 240, 8, threads}); v.back().max_shrinks = 60;
    v.back().rule = "requests from up to five threads at once: nothing is handed out twice; non-trivial: several threads";
    v.push_back({"large", {seed("s"), fd, front, opens, num("v", 0, 1 << 20), num("d", -3, 3), list("reads", 8, {{1, -6, -1}, {4, 0, 1 << 24}})}, {}, T ? 4000 : 160, 5, large}); v.back().max_shrinks = 100;
    v.back().rule = "requests around multiples of one megabyte, with faults";
    return v;
}
