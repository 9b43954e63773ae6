// C21: results depend on the inputs only, not on how the library is compiled, the word size, the signedness of plain
// char, or what memory contained before. Builds of the library under remote control (plat/plat.c) get the same requests.
#include "fab.hpp"
#include "synth.hpp"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace eng; using namespace lib; using namespace shapes;

struct Build { std::string name, path; pid_t pid = -1; int in = -1, out = -1; bool dead = false; };
static std::map<std::string, std::vector<Build>> builds;    // per flavour, first one: as the Makefile compiles
static void load_builds() {
    for (const char *f : {"basic", "fast", "mockbasic", "mockfast"}) {
        std::string l = opt.args[std::string("plat_") + f]; size_t a = 0;         // name=path;name=path
        while (a < l.size()) { size_t e = l.find(';', a); if (e == std::string::npos) e = l.size(); std::string s = l.substr(a, e - a); size_t q = s.find('='); Build b; b.name = s.substr(0, q); b.path = s.substr(q + 1); builds[f].push_back(b); a = e + 1; }
    }
}
static std::string errfile() { return opt.work + "/plat-err." + std::to_string(getpid()); }
static void start(Build &b) {
    int i[2], o[2]; if (pipe2(i, O_CLOEXEC) || pipe2(o, O_CLOEXEC)) { perror("pipe"); _exit(3); }
    std::string ef = errfile(); pid_t me = getpid();
    b.pid = fork();
    if (b.pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(3);
        dup2(i[0], 0); dup2(o[1], 1); int e = open(ef.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if (e >= 0) dup2(e, 2);
        setenv("MSAN_OPTIONS", "exitcode=77:handle_segv=1:poison_in_free=0", 1); execl(b.path.c_str(), b.path.c_str(), (char *)nullptr); _exit(126);
    }
    close(i[0]); close(o[1]); b.in = i[1]; b.out = o[0];
}
static void stop(Build &b) { if (b.pid > 0) { close(b.in); close(b.out); kill(b.pid, SIGKILL); int s; waitpid(b.pid, &s, 0); b.pid = -1; } }
static void put32(Buf &b, uint32_t x) { for (int i = 0; i < 4; i++) b.push_back((u8)(x >> (8 * i))); }
struct Req { u8 op; ref::P p; bool mt = false; uint32_t oid = 0, cnt = 0; uint64_t seed = 0; Buf a, b; };
static Buf encode(const Req &r, u8 fill) {
    Buf q; put32(q, 0); q.push_back(r.op); q.push_back(fill); q.push_back(r.mt); q.push_back(0);
    for (uint32_t x : {r.oid, (uint32_t)r.p.func, (uint32_t)r.p.n, (uint32_t)r.p.w, (uint32_t)r.p.h, (uint32_t)r.p.d, (uint32_t)r.p.k, (uint32_t)r.p.pad, r.cnt}) put32(q, x);
    put32(q, (uint32_t)r.seed); put32(q, (uint32_t)(r.seed >> 32));
    put32(q, (uint32_t)r.a.size()); q.insert(q.end(), r.a.begin(), r.a.end()); put32(q, (uint32_t)r.b.size()); q.insert(q.end(), r.b.begin(), r.b.end());
    uint32_t n = (uint32_t)q.size() - 4; memcpy(q.data(), &n, 4); return q;
}
static bool send(Build &b, const Buf &q) { size_t at = 0; while (at < q.size()) { ssize_t w = write(b.in, q.data() + at, q.size() - at); if (w <= 0) return false; at += (size_t)w; } return true; }
static bool recv(Build &b, void *p, size_t n) { u8 *c = (u8 *)p; while (n) { ssize_t r = read(b.out, c, n); if (r <= 0) return false; c += r; n -= (size_t)r; } return true; }
static std::string complaint() {
    std::string s; FILE *f = fopen(errfile().c_str(), "r"); if (!f) return s; char l[400]; int n = 0;
    while (fgets(l, sizeof l, f) && n < 5) if (strstr(l, "WARNING") || strstr(l, "ERROR") || strstr(l, "    #")) { l[strcspn(l, "\n")] = 0; s += " |"; s += l; n++; }
    fclose(f); return s;
}
static const char *const opname[] = {"parameters", "identifier of a name", "key generation", "signing", "verification"};
static uint64_t le64(const Buf &b, size_t i) { uint64_t x = 0; if (b.size() >= 8 * i + 8) memcpy(&x, b.data() + 8 * i, 8); return x; }
// the same request to every build of the flavour; returns the common reply
static Buf ask(const std::string &flavour, const Req &r, const std::string &what, Ctx &x) {
    auto &v = builds[flavour]; std::vector<Build *> act; unsigned k = 0;
    for (auto &b : v) { k++; if (b.dead) continue; if (b.pid <= 0) start(b); act.push_back(&b); static const u8 fills[] = {0x00, 0xff, 0x5a, 0x01, 0x80, 0xa5, 0x7f, 0x33}; if (!send(b, encode(r, fills[(k + r.seed + r.cnt) % 8]))) { } }
    Buf first; std::string fname;
    for (auto *b : act) {
        uint32_t n = 0; Buf o; bool ok = recv(*b, &n, 4); if (ok) { o.resize(n); ok = recv(*b, o.data(), n); }
        if (!ok) {
            int s = 0; pid_t w = waitpid(b->pid, &s, 0); close(b->in); close(b->out); b->pid = -1; std::string c = complaint(); for (auto *y : act) stop(*y);
            (void)w; fail("%s: %s in build %s ends the process (%s %d)%s", what.c_str(), opname[r.op], b->name.c_str(), WIFSIGNALED(s) ? "signal" : "status", WIFSIGNALED(s) ? WTERMSIG(s) : WEXITSTATUS(s), c.c_str());
        }
        if (fname.empty()) { first = o; fname = b->name; continue; }
        if (o != first) {
            size_t at = 0; while (at < o.size() && at < first.size() && o[at] == first[at]) at++;
            for (auto *y : act) stop(*y);
            fail("%s: %s gives different results in builds %s and %s (%zu and %zu bytes, first difference at %zu: %s and %s)", what.c_str(), opname[r.op], fname.c_str(), b->name.c_str(), first.size(), o.size(), at,
                 hex(first.data() + at, first.size() - at, 12).c_str(), hex(o.data() + at, o.size() - at, 12).c_str());
        }
        x.label("compared with " + b->name);
    }
    return first;
}
static bool have(const std::string &f) { return builds[f].size() > 1; }
static Req req(u8 op, const Api &a) { Req r; r.op = op; r.p = a.p; r.mt = a.family; r.oid = a.oid ? a.p.oid : 0; return r; }
static Req signs(const Api &a, const Buf &sk, const Buf &m, uint32_t cnt) { Req r = req(3, a); r.a = sk; r.b = m; r.cnt = cnt; return r; }
static void verify(const std::string &f, const Api &a, Buf sm, const Buf &pk, Bytes &b, const std::string &w, Ctx &x) {
    for (int i = 0; i < 3; i++) {
        Req r = req(4, a); r.a = sm; r.b = pk; Buf o = ask(f, r, w, x); x.label(le64(o, 1) ? "rejected" : "accepted");
        if (i == 0) sm[b.below(sm.size())] ^= (u8)(1 << b.below(8)); else if (i == 1) sm.resize(b.below(3) ? b.below(a.sig + 1) : a.sig - 1);
    }
}
// keys, whole lives
static void whole(const Case &c, Ctx &x) {
    bool fast = c["fast"], mock = c["mock"]; std::string f = std::string(mock ? "mock" : "") + (fast ? "fast" : "basic"); const Lib &L = get(f);
    if (!have(f) || (mock && !L.mock_ok)) { x.skipped = true; return; }
    const ref::P &q = c.v.count("ps") ? ref::standard()[c["ps"]] : params(c, c["g"]); Api a = q.oid ? api(L, q) : custom(L, q); const ref::P &p = a.p; std::string w = pname(p); Bytes b(c["ks"]);
    Req r = req(2, a); r.seed = c["ks"]; Buf o = ask(f, r, w, x);
    if (le64(o, 1) || o.size() != 16 + a.pk + a.sk) { x.label("no key in any build"); return; }
    Buf pk(o.begin() + 16, o.begin() + 16 + a.pk), sk(o.begin() + 16 + a.pk, o.end()); uint64_t done = 0, upto = std::min<uint64_t>(c.v.count("upto") ? c["upto"] : 1LL << 40, last_index(p) + 1);
    while (done < upto) {
        uint32_t cnt = (uint32_t)std::min<uint64_t>(1 + b.below(mock ? 300 : 8), upto - done); Buf m = b.get(b.below(70));
        o = ask(f, signs(a, sk, m, cnt), w + " from index " + std::to_string(done), x); if (le64(o, 1) || o.size() < 40 + a.sk) { x.label("no signature in any build"); return; }
        sk.assign(o.begin() + 32, o.begin() + 32 + a.sk); Buf sm(o.begin() + 32 + a.sk + 8, o.end()); done += cnt; x.label("signatures", cnt);
        if (sm.size() == a.sig + m.size() && b.below(3) == 0) verify(f, a, sm, pk, b, w, x);
    }
    if (upto > last_index(p)) { ask(f, signs(a, sk, b.get(5), 1), w + " after the last index", x); x.label("complete lifetimes"); }
    x.nontrivial = true; x.sample = f + " " + w + " signatures=" + std::to_string(done);
}
// keys placed at an index
static void jump(const Case &c, Ctx &x) {
    bool fast = c["fast"], mock = c["mock"]; std::string f = std::string(mock ? "mock" : "") + (fast ? "fast" : "basic"); const Lib &L = get(f);
    if (!have(f) || (mock && !L.mock_ok)) { x.skipped = true; return; }
    const ref::P &q = c.v.count("ps") ? ref::standard()[c["ps"]] : params(c, c["g"]); Api a = q.oid ? api(L, q) : custom(L, q); const ref::P &p = a.p;
    if (fast && !fab::usable(L)) { x.skipped = true; x.label("state layout unknown"); return; }
    uint64_t idx = pick_index(p, c); ref::Key fresh(p, {}, {}, {}), *k; if (p.th >= 10) k = &cached_key(p, c["ks"]); else { Bytes z(mix(c["ks"], 0x6a)); fresh = ref::Key(p, z.get(p.n), z.get(p.n), z.get(p.n)); k = &fresh; }
    KeyPair kp = fast ? fab::key(a, *k, idx) : plain_key(a, *k, idx); Bytes b(c["cs"]); Buf m = b.get(b.below(70)); std::string w = std::string(pname(p)) + " at index " + std::to_string(idx);
    Buf o = ask(f, signs(a, kp.sk, m, (uint32_t)std::min<uint64_t>(c["cnt"], last_index(p) - idx + 1)), w, x); if (le64(o, 1) || o.size() < 40 + a.sk) { x.label("no signature in any build"); return; }
    Buf sm(o.begin() + 32 + a.sk + 8, o.end()); verify(f, a, sm, kp.pk, b, w, x);
    if (c["beyond"]) { uint64_t e = last_index(p) + c["beyond"] - (c["beyond"] > 2 ? 0 : 0); Buf sk = kp.sk; if (p.idxb < 8 && e >> (8 * p.idxb)) e = (1ULL << (8 * p.idxb)) - 1; a.set_index(sk.data(), e); ask(f, signs(a, sk, m, 1), std::string(pname(p)) + " at the index " + std::to_string(e) + " beyond the end", x); }
    x.nontrivial = true; if (idx >> 32) x.label("index above 32 bits"); x.sample = f + " " + w;
}
// verification of synthesised, damaged, arbitrary, short input
static void opens(const Case &c, Ctx &x) {
    bool fast = c["fast"], mock = c["mock"]; std::string f = std::string(mock ? "mock" : "") + (fast ? "fast" : "basic"); const Lib &L = get(f);
    if (!have(f) || (mock && !L.mock_ok)) { x.skipped = true; return; }
    Api a = api(L, ref::standard()[c["ps"]]); const ref::P &p = a.p; Bytes b(c["cs"]); std::string w = pname(p); uint64_t idx = pick_index(p, c); size_t ml = b.below(3) ? b.below(200) : b.below(5000);
    synth::Synth y(p, idx, c["ks"]); Buf R = b.get(p.n), m = b.get(ml), s = y.sign(y.root, R, m), pk = y.pk(a, y.root);
    if (c["kind"] == 1) for (auto &z : s) z ^= 0x80;
    if (c["kind"] == 2) s = Buf(a.sig + ml, 0xff);
    if (c["kind"] == 3) { Buf z = b.get(4); memcpy(pk.data(), z.data(), a.off ? 4 : 0); }
    verify(f, a, s, pk, b, w, x); if (idx >> 32) x.label("index above 32 bits"); x.nontrivial = true; x.sample = f + " " + w + " kind " + std::to_string(c["kind"]);
}
static void sets(const Case &c, Ctx &x) {
    for (const char *f : {"basic", "fast"}) {
        if (!have(f)) { x.skipped = true; return; }
        Bytes b(c["cs"]); Req r; r.op = 0;
        if (c["kind"] == 0) { r.p = ref::standard()[c["ps"]]; r.oid = r.p.oid; r.mt = r.p.mt; ask(f, r, r.p.name, x); }
        else if (c["kind"] == 1) { r.oid = (uint32_t)b.next() & 0xffffffffu; if (b.below(2)) r.oid %= 90; if (!r.oid) r.oid = 1; r.mt = b.below(2); ask(f, r, "identifier " + std::to_string(r.oid), x); }
        else if (c["kind"] == 2) {
            auto l = all(20); S s = l[b.below(l.size())]; r.p = ref::make((int)b.below(3), 32u << b.below(2), 4u << (2 * b.below(2)), s.th * s.d, s.d, s.k); if (b.below(4) == 0) { r.p.n = 24; r.p.pad = 4; }
            if (b.below(3) == 0) { r.p.h = 30 + (unsigned)b.below(33); r.p.d = 1; for (unsigned d = 2; d < 13; d++) if (r.p.h % d == 0) r.p.d = d; r.p.k = 0; }
            if (b.below(6) == 0) r.p.w = (unsigned)b.below(300);
            ask(f, r, "custom parameters", x);
        } else { r.op = 1; r.mt = b.below(2); std::string n = ref::standard()[b.below(ref::standard().size())].name; if (b.below(2)) { n[b.below(n.size())] = (char)b.next(); } if (b.below(4) == 0) n.resize(b.below(n.size() + 1)); r.a.assign(n.begin(), n.end()); for (auto &z : r.a) if (!z) z = 0xe4; ask(f, r, "name", x); }
    }
    x.nontrivial = true; x.sample = "kind " + std::to_string(c["kind"]);
}
void eng::worker_init() { model_ready(); signal(SIGPIPE, SIG_IGN); load_builds(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v; auto both = [](std::vector<Fixed> in, int mock) { std::vector<Fixed> o; for (auto z : in) for (int f = 0; f < 2; f++) { z["fast"] = f; z["mock"] = mock; o.push_back(z); } return o; };
    auto add = [&](Stage s, int shrinks) { s.max_shrinks = shrinks; v.push_back(s); };
    auto with = [](std::vector<Fixed> in, const char *k, int64_t x) { for (auto &z : in) z[k] = x; return in; };
    std::vector<Field> kf{num("ks", 0, 1 << 30)};
    std::vector<Fixed> ss; for (auto z : pick([](const ref::P &) { return true; })) { z["kind"] = 0; ss.push_back(z); } for (int k = 1; k < 4; k++) ss.push_back({{"kind", k}, {"ps", 0}});
    add({"sets", {seed("cs")}, ss, T ? 60 : 6, T ? 20 : 6, sets}, 40); v.back().rule = "every standard set, generated identifiers, names and custom parameters: all derived values";
    add({"shapes", cat(kf, {num("g", 0, 6), num("wi", 0, 2)}), both(strata(all(T ? 10 : 8)), 1), T ? 3 : 1, 1, whole}, 20); v.back().rule = "complete lifetimes of all legal (height, layers, k), key generation, every signature, the key after each, verification";
    std::vector<Fixed> ls = both(pick([&](const ref::P &p) { return p.th == 5 || (T && p.th == 10); }), 1); for (auto &z : ls) { auto &p = ref::standard()[z["ps"]]; z["upto"] = z["fast"] ? (T ? 3000 : 400) : (T && p.th == 5 ? 300 : 20); }
    add({"sets-life", kf, ls, 1, 1, whole}, 10); v.back().rule = "standard sets from key generation on";
    std::vector<Field> jf = cat(index_fields(), {num("ks", 0, 3), seed("cs"), num("cnt", 1, 6), num("beyond", {{1, 0, 0}, {1, 1, 3}})});
    add({"jump", jf, both(pick([&](const ref::P &p) { return p.th <= (T ? 20u : 10u) && (p.th < 20 || p.n == 24); }), 1), T ? 30 : 3, T ? 5 : 3, jump}, 60); v.back().rule = "standard sets at generated indices up to the full height, and stored indices beyond the end";
    add({"jump-shapes", cat(jf, {num("g", 0, 6), num("wi", 0, 2)}), both(strata({{2, 16, 0}, {2, 20, 0}, {3, 11, 1}, {3, 20, 0}, {4, 8, 2}, {4, 15, 2}, {5, 12, 3}, {6, 10, 2}, {7, 9, 5}, {8, 7, 4}, {9, 7, 3}, {11, 5, 1}, {12, 1, 2}, {2, 31, 0}, {13, 1, 3}, {8, 4, 0}, {10, 2, 8}, {6, 7, 4}}), 1), T ? 40 : 3, T ? 5 : 3, jump}, 60); v.back().rule = "the same for shapes with many layers, total height up to 62, and all kinds of k";
    std::vector<Field> of = cat(index_fields(), {seed("cs"), num("ks", 0, 1 << 20), num("kind", {{3, 0, 0}, {1, 1, 3}})});
    add({"open", of, both(pick([](const ref::P &) { return true; }), 1), T ? 60 : 5, T ? 20 : 5, opens}, 60); v.back().rule = "verification of synthesised valid, damaged, arbitrary and short input, every standard set";
    add({"real-open", of, both(pick([](const ref::P &) { return true; }), 0), T ? 6 : 1, 1, opens}, 10); v.back().rule = "the same with real hashing";
    add({"real-shapes", cat(kf, {num("g", 0, 6), num("wi", 0, 1)}), both(with(strata({{2, 1, 0}, {4, 1, 2}, {2, 2, 0}, {3, 2, 1}, {2, 3, 0}, {4, 2, 2}, {3, 1, 1}}), "upto", T ? 64 : 12), 0), T ? 4 : 1, 1, whole}, 8); v.back().rule = "real hashing: keys and signatures of small shapes";
    std::vector<Fixed> rs; for (auto z : with(pick([&](const ref::P &p) { return T ? p.th == 5 : p.th == 5 && p.d == 4 && p.n < 64; }), "upto", T ? 40 : 2)) for (int f = 0; f < 2; f++) { z["fast"] = f; z["mock"] = 0; auto &p = ref::standard()[z["ps"]]; if (!T && f == (p.n == 24)) continue; rs.push_back(z); }
    add({"real-sets", kf, rs, 1, 1, whole}, 4); v.back().rule = "real hashing: key generation and signatures of standard sets";
    return v;
}
