// C24: signing runs at the same time on one key file never use the same one-time key. Two or three signing processes run
// under ptrace; a generated schedule decides, system call by system call, which of them goes on, and may kill one.
#include "trace.hpp"
#include <set>
using namespace eng; using namespace lib; using namespace shapes; using namespace cli;

struct Setup { std::string kind, bin, who; bool fast, mt; Api a; cli::Key k; uint64_t idx; std::vector<Buf> chain; };   // chain: the key after 0, 1, .. signatures
static bool setup(const Case &c, Ctx &x, Setup &s, int n) {
    const ref::P &p = ref::standard()[c["ps"]]; bool mock = c["mock"]; s.kind = mock ? "mock" : ""; s.fast = c["fast"]; s.mt = p.mt;
    if (mock && !(get("mockbasic").mock_ok && get("mockfast").mock_ok)) { x.skipped = true; return false; }
    s.a = by_oid(get(s.kind + (s.fast ? "fast" : "basic")), p); s.k = make(s.a, c["ks"]); s.bin = tool(s.kind, s.mt, "sign", s.fast);
    if (!s.fast) s.a.set_index(s.k.sk.data(), pick_index(p, c));
    else for (int i = (int)(c["ks"] % 3); i; i--) s.k.sk = expect_sign(s.a, s.k.sk, {}).sk;
    s.idx = s.a.index(s.k.sk.data()); Buf sk = s.k.sk;
    for (int i = 0; i <= n; i++) { s.chain.push_back(sk); Expect e = expect_sign(s.a, sk, {}); if (e.r) break; sk = e.sk; }
    if ((int)s.chain.size() <= n) return false;                                   // the end of a key's life is another property
    s.who = std::string(p.mt ? "xmssmt_" : "xmss_") + "sign" + (s.fast ? "_fast " : " ") + pname(p) + ", key at index " + std::to_string(s.idx) + ", " + std::to_string(n) + " runs";
    return true;
}
struct End { bool killed = false, exited = false; int code = -1, sig = 0; Buf out, m; };
static void judge(const Setup &s, const Buf &key, const std::vector<End> &es, Ctx &x) {
    const char *w = s.who.c_str(); const ref::P &p = s.a.p; std::map<uint64_t, size_t> used; size_t ok = 0, cut = 0; uint64_t top = s.idx;
    for (size_t i = 0; i < es.size(); i++) {
        const End &e = es[i]; if (!e.killed && !e.exited) fail("%s: run %zu is killed by signal %d", w, i, e.sig);
        if (e.exited && e.code == 0) {
            if (e.out.size() != p.sigb + e.m.size()) fail("%s: run %zu exits with 0 and puts out %zu bytes", w, i, e.out.size());
            Buf m(e.out.size() + 1); ull ml = 0; if (s.a.open(m.data(), &ml, e.out.data(), e.out.size(), s.k.pk.data()) || ml != e.m.size() || memcmp(m.data(), e.m.data(), ml)) fail("%s: run %zu exits with 0, but its signature does not verify", w, i);
            ok++;
        } else if (e.exited && !e.out.empty()) fail("%s: run %zu exits with %d and puts out %zu bytes", w, i, e.code, e.out.size());
        if (e.killed) cut++;
        if (e.out.size() >= p.idxb) {
            uint64_t q = ref::to_int(e.out.data(), p.idxb); auto f = used.find(q);
            if (f != used.end()) fail("%s: run %zu and run %zu both release a signature with index %llu, of different messages", w, f->second, i, (ull)q);
            used[q] = i; top = std::max(top, q + 1);
        }
    }
    if (key.size() != s.k.pk.size() + s.k.sk.size() || memcmp(key.data(), s.k.pk.data(), s.k.pk.size())) fail("%s: the key file does not hold the public key and a secret key afterwards", w);
    Buf sk(key.begin() + s.k.pk.size(), key.end()); size_t at = 0; while (at < s.chain.size() && s.chain[at] != sk) at++;
    if (at == s.chain.size()) fail("%s: the key file holds index %llu afterwards, but not the key in that state", w, (ull)s.a.index(sk.data()));
    if (s.idx + at < top) fail("%s: index %llu has been released, the key file holds index %llu", w, (ull)top - 1, (ull)(s.idx + at));
    if (at < ok) fail("%s: %zu signatures have been released, the key file holds index %llu", w, ok, (ull)(s.idx + at));
    x.label("signed", ok); if (ok < es.size() - cut) x.label("refused", es.size() - cut - ok);
}
static char state(pid_t p) { char f[64], b[512]; snprintf(f, sizeof f, "/proc/%d/stat", p); int fd = open(f, O_RDONLY); if (fd < 0) return '?'; ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return '?'; b[n] = 0; char *q = strrchr(b, ')'); return q && q[1] ? q[2] : '?'; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Proc { pid_t p = 0; bool entry = true, armed = false, done = false, blocked = false, running = false; int st = 0, steps = 0; long nr = 0; };
static void scheduled(const Case &c, Ctx &x) {
    int n = (int)c["n"]; Setup s; if (!setup(c, x, s, n)) return;
    if (!tracing()) { x.skipped = true; return; }
    Dir d; std::string kf = d.put("key", s.k.file()); std::vector<End> es(n); std::vector<Proc> ps(n); std::vector<int> outs;
    for (int i = 0; i < n; i++) {
        es[i].m = Bytes(c["cs"] + i * 77).get((c["cs"] + i) % 50 == 0 ? 9000 : 3 + i); std::string mf = d.put(("msg" + std::to_string(i)).c_str(), es[i].m), of = d.file(("out" + std::to_string(i)).c_str());
        pid_t p = fork();
        if (!p) {
            int in = open("/dev/null", O_RDONLY), o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(d.file(".err").c_str(), O_CREAT | O_APPEND | O_WRONLY, 0600);
            dup2(in, 0); dup2(o, 1); dup2(e, 2); for (int f = 3; f < 64; f++) close(f);
            rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z); setenv("VERIF_RNG", "1", 1); if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(96);
            raise(SIGSTOP); execl(s.bin.c_str(), s.bin.c_str(), kf.c_str(), mf.c_str(), nullptr); _exit(97);
        }
        int st; if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st) || ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) { for (auto &q : ps) if (q.p) { kill(q.p, SIGKILL); waitpid(q.p, &st, 0); } kill(p, SIGKILL); waitpid(p, &st, 0); x.skipped = true; return; }
        ps[i].p = p;
    }
    double t0 = now(); std::string trail; size_t switches = 0; bool hung = false, waited = false;
    // lets one process go on to its next stop at a system call; false if it waits for something
    auto settle = [&](Proc &q, double patience) {
        double t = now(); useconds_t nap = 0;
        for (;;) {
            int st; pid_t w = waitpid(q.p, &st, WNOHANG);
            if (w == q.p) { q.running = q.blocked = false; q.st = st; if (WIFEXITED(st) || WIFSIGNALED(st)) q.done = true; return true; }
            if (w < 0) { q.done = true; return true; }
            if (now() - t > patience && (state(q.p) == 'S' || now() - t > 20)) { q.blocked = true; return false; }
            if (nap < 500) nap++; if (nap > 60) usleep(nap);
        }
    };
    auto step = [&](Proc &q) {                                                    // one system call further
        for (;;) {
            if (!q.running) { int sig = WIFSTOPPED(q.st) && WSTOPSIG(q.st) != (SIGTRAP | 0x80) && WSTOPSIG(q.st) != SIGTRAP && WSTOPSIG(q.st) != SIGSTOP ? WSTOPSIG(q.st) : 0; ptrace(PTRACE_SYSCALL, q.p, 0, sig); q.running = true; }
            if (!settle(q, q.blocked ? 0.0005 : 0.02) || q.done) return;
            if (!WIFSTOPPED(q.st) || WSTOPSIG(q.st) != (SIGTRAP | 0x80)) continue;
            if (!q.entry) { q.entry = true; continue; }
            user_regs_struct r; ptrace(PTRACE_GETREGS, q.p, 0, &r); q.nr = (long)r.orig_rax; q.entry = false;
            if (!q.armed && (q.nr == 257 || q.nr == 2 || q.nr == 437)) { if (peek(q.p, q.nr == 2 ? r.rdi : r.rsi) == kf) q.armed = true; }
            if (q.armed) { q.steps++; return; }
        }
    };
    for (auto &q : ps) while (!q.done && !q.armed && !q.blocked) step(q);         // all are about to open the key file
    size_t at = 0; auto &sch = c.lst("sch"); int cur = 0, victim = c["kill"] < 0 ? -1 : (int)(c["kill"] % n), vstep = (int)(c["kill"] / n);
    for (;;) {
        bool live = false; for (auto &q : ps) if (!q.done) live = true;
        if (!live) break;
        if (now() - t0 > 60) { hung = true; break; }
        int len = 1;
        if (at < sch.size()) { int64_t v = sch[at++]; cur = (int)(v % n); len = (int)(v / n) % 45 + 1; } else { cur = (cur + 1) % n; len = 400; }
        Proc &q = ps[cur]; if (q.done) continue;
        switches++; if (trail.size() < 200) trail += std::to_string(cur) + "x" + std::to_string(len) + " ";
        for (int i = 0; i < len && !q.done; i++) {
            if (cur == victim && q.steps >= vstep) { kill(q.p, SIGKILL); if (!q.running || true) waitpid(q.p, &q.st, 0); es[cur].killed = true; q.done = true; x.label("killed in between"); break; }
            step(q); if (q.blocked && !q.done) { waited = true; bool others = false; for (auto &o : ps) if (!o.done && !o.blocked) others = true; if (!others) { usleep(2000); for (auto &o : ps) if (!o.done && o.blocked) settle(o, 0.001); } break; }
        }
        for (auto &o : ps) if (!o.done && o.blocked && &o != &q) settle(o, 0.0);
    }
    if (hung) { for (auto &q : ps) if (!q.done) { kill(q.p, SIGKILL); int st; waitpid(q.p, &st, 0); } fail("%s: the runs do not end", s.who.c_str()); }
    for (int i = 0; i < n; i++) { End &e = es[i]; if (!e.killed) { e.exited = WIFEXITED(ps[i].st); e.code = e.exited ? WEXITSTATUS(ps[i].st) : -1; e.sig = WIFSIGNALED(ps[i].st) ? WTERMSIG(ps[i].st) : 0; } e.out = slurp(d.file(("out" + std::to_string(i)).c_str())); }
    s.who += ", schedule " + trail; judge(s, slurp(kf), es, x);
    x.nontrivial = switches >= 2; if (waited) x.label("schedules with waiting"); x.sample = s.who;
}
// the same without any control: all at once
static void parallel(const Case &c, Ctx &x) {
    int n = (int)c["n"]; Setup s; if (!setup(c, x, s, n)) return;
    Dir d; std::string kf = d.put("key", s.k.file()); std::vector<End> es(n); std::vector<pid_t> ps; int gate[2]; if (pipe(gate)) exit(3);
    for (int i = 0; i < n; i++) {
        es[i].m = Bytes(c["cs"] + i * 77).get(3 + i); std::string mf = d.put(("msg" + std::to_string(i)).c_str(), es[i].m), of = d.file(("out" + std::to_string(i)).c_str());
        pid_t p = fork();
        if (!p) { int in = open("/dev/null", O_RDONLY), o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(in, 0); dup2(o, 1); dup2(in, 2); close(gate[1]); char g; (void)!read(gate[0], &g, 1); for (int f = 3; f < 64; f++) close(f); setenv("VERIF_RNG", "1", 1); execl(s.bin.c_str(), s.bin.c_str(), kf.c_str(), mf.c_str(), nullptr); _exit(97); }
        ps.push_back(p);
    }
    close(gate[0]); close(gate[1]); double t0 = now();
    for (int i = 0; i < n; i++) { int st = 0; pid_t w; while ((w = waitpid(ps[i], &st, WNOHANG)) == 0 && now() - t0 < 100) usleep(500); if (w == 0) { for (int j = i; j < n; j++) { kill(ps[j], SIGKILL); waitpid(ps[j], &st, 0); } fail("%s: at the same time: the runs do not end", s.who.c_str()); } es[i].exited = WIFEXITED(st); es[i].code = es[i].exited ? WEXITSTATUS(st) : -1; es[i].sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; es[i].out = slurp(d.file(("out" + std::to_string(i)).c_str())); }
    s.who += ", at the same time"; judge(s, slurp(kf), es, x); x.nontrivial = true; x.sample = s.who;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v; std::vector<Fixed> cfg, real; auto &S = ref::standard();
    for (size_t i = 0; i < S.size(); i++) for (int f = 0; f < 2; f++) {
        if (S[i].th <= 10 && (T || S[i].name == "XMSS-SHA2_10_256" || S[i].name == "XMSSMT-SHA2_20/2_256" || S[i].name == "XMSSMT-SHAKE_40/8_512" || S[i].name == "XMSSMT-SHA2_60/12_192" || S[i].name == "XMSS-SHAKE256_10_192")) cfg.push_back({{"ps", (int64_t)i}, {"fast", f}, {"mock", 1}});
        if (S[i].th == 5 && S[i].d == 4 && f == 1 && (T || S[i].n == 24)) real.push_back({{"ps", (int64_t)i}, {"fast", f}, {"mock", 0}});
    }
    auto with = [](std::vector<Fixed> f, const char *k, int lo, int hi) { std::vector<Fixed> o; for (auto e : f) for (int q = lo; q <= hi; q++) { e[k] = q; o.push_back(e); } return o; };
    std::vector<Field> fs = cat(index_fields(), {num("ks", 0, 3), seed("cs")});
    // a run goes p calls far, then another one to its end
    std::vector<Fixed> pts = with(cfg, "point", 0, 29);
    v.push_back({"overtaken", cat(fs, {num("n", 2, 2), num("kill", -1, -1)}), pts, T ? 3 : 1, 1, [](const Case &c, Ctx &x) { Case q = c; int64_t p = c["point"]; q.v["sch"] = {p ? 2 * (p - 1) : 1 + 2 * 44, 1 + 2 * 44, 1 + 2 * 44}; scheduled(q, x); }}); v.back().max_shrinks = 30;
    v.back().rule = "one run is stopped before each of its system calls, another one runs to its end or until it waits, then the first goes on";
    v.push_back({"schedules", cat(fs, {num("n", {{3, 2, 2}, {1, 3, 3}}), num("kill", {{3, -1, -1}, {1, 0, 89}}), list("sch", 14, {{4, 0, 40}, {1, 0, 134}})}), cfg, T ? 1500 : 120, 10, scheduled}); v.back().max_shrinks = 60;
    v.back().rule = "generated schedules of two or three runs, switched between at system calls, one of them possibly killed; non-trivial: at least two switches";
    v.push_back({"parallel", cat(fs, {num("n", 2, 8)}), cfg, T ? 200 : 12, 4, parallel}); v.back().max_shrinks = 10; v.back().workers = 4;
    v.back().rule = "two to eight runs started at once without control";
    v.push_back({"real", cat(fs, {num("n", 2, 3), num("kill", {{3, -1, -1}, {1, 0, 89}}), list("sch", 14, {{4, 0, 40}, {1, 0, 134}})}), real, T ? 60 : 10, 2, scheduled}); v.back().max_shrinks = 10;
    v.back().rule = "generated schedules with the tools as built by the Makefile";
    return v;
}
