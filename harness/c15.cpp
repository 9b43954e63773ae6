// C15: the signing tool never releases a signature before the key file is advanced, at any crash point and under any
// failing write. The tool runs as a traced child; it is killed before a chosen system call, or a chosen write is made to
// fail, to be short, or to be short and followed by a kill.
#include "trace.hpp"
#include <set>
using namespace eng; using namespace lib; using namespace shapes; using namespace cli;

struct Setup { std::string kind, bin; bool fast; Api a; cli::Key k; Buf m; uint64_t idx; Expect e; std::string who; };
static bool setup(const Case &c, Ctx &x, Setup &s) {
    const ref::P &p = ref::standard()[c["ps"]]; bool mock = c["mock"]; s.kind = mock ? "mock" : ""; s.fast = c["fast"];
    if (mock && !(get("mockbasic").mock_ok && get("mockfast").mock_ok)) { x.skipped = true; return false; }
    s.a = by_oid(get(s.kind + (s.fast ? "fast" : "basic")), p); s.bin = tool(s.kind, p.mt, "sign", s.fast);
    s.k = make(s.a, c["ks"]);
    int64_t v = c["mv"]; size_t n; switch (c["mm"]) { case 0: n = 0; break; case 1: n = v % 100; break; case 2: n = v % 3000; break; case 3: n = 4096 * (v % 6 + 1) - p.sigb % 4096 + v / 6 % 5 - 2; break; default: n = v % 40000; }
    s.m = Bytes(c["cs"]).get(n);
    if (s.fast) { int skip = (int)(v / 7 % 3); for (int i = 0; i < skip; i++) { Expect e = expect_sign(s.a, s.k.sk, {}); s.k.sk = e.sk; } }   // a few signatures later
    else s.a.set_index(s.k.sk.data(), pick_index(p, c));
    s.idx = s.a.index(s.k.sk.data()); s.e = expect_sign(s.a, s.k.sk, s.m);
    s.who = std::string(p.mt ? "xmssmt_sign" : "xmss_sign") + (s.fast ? "_fast " : " ") + pname(p) + ", index " + std::to_string(s.idx) + ", message of " + std::to_string(n) + " bytes";
    return true;
}
// What must hold of the files after any run, whatever happened to it.
static void judge(const Setup &s, const Buf &out, const Buf &key, bool finished, int code, const std::string &what) {
    Buf adv = cat(s.k.pk, s.e.sk), old = s.k.file(); const char *w = s.who.c_str(), *h = what.c_str();
    if (key.size() != old.size()) fail("%s: %s: the key file has %zu bytes instead of %zu", w, h, key.size(), old.size());
    if (memcmp(key.data(), old.data(), s.k.pk.size())) fail("%s: %s: the public key changed", w, h);
    bool advanced = key == adv, complete = !s.e.r && out == s.e.sm;
    if (s.e.r) { if (!out.empty()) fail("%s: %s: %zu bytes of output from a key that is used up", w, h, out.size()); if (finished && code == 0) fail("%s: %s: exit status 0 although signing is refused", w, h); return; }
    if (out.size() > s.e.sm.size() || memcmp(out.data(), s.e.sm.data(), out.size())) fail("%s: %s: the output is not (a part of) the signed message", w, h);
    if (!out.empty() && !advanced) fail("%s: %s: %zu bytes of the signature are out, but the key file does not hold the advanced key (%s, index in the file %llu)", w, h, out.size(), diff(key, adv).c_str(), (ull)s.a.index(key.data() + s.k.pk.size()));
    if (finished && !complete && code == 0) fail("%s: %s: exit status 0, but only %zu of %zu bytes are out", w, h, out.size(), s.e.sm.size());
    if (finished && !advanced && code == 0) fail("%s: %s: exit status 0, but the key file does not hold the advanced key", w, h);
}
static void traced(const Case &c, Ctx &x, const Plan &pl, const char *what) {
    Setup s; if (!setup(c, x, s)) return;
    if (!tracing()) { x.skipped = true; return; }
    Dir d; std::string kf = d.put("key", s.k.file()), mf = d.put("msg", s.m); bool pipe_out = c["out"] && s.e.sm.size() < 60000; int pfd[2] = {-1, -1}, out;
    if (pipe_out) { if (pipe(pfd)) exit(3); out = pfd[1]; } else out = open(d.file(".out").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    Traced t = trace(d, s.bin, {c["rel"] ? "key" : kf, c["rel"] ? "msg" : mf}, out, pl);
    close(out); Buf got;
    if (pipe_out) { u8 b[65536]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) got.insert(got.end(), b, b + n); close(pfd[0]); } else got = slurp(d.file(".out"));
    if (!t.started) { x.skipped = true; return; }
    std::string w = what; w += t.hit ? ", " + t.at : ", not reached";
    if (t.hung) fail("%s: %s: does not end", s.who.c_str(), w.c_str());
    if (!t.killed && !t.exited) fail("%s: %s: killed by signal %d", s.who.c_str(), w.c_str(), t.sig);
    if (!t.hit && !s.e.r && t.code != 0) fail("%s: undisturbed run exits with %d", s.who.c_str(), t.code);
    judge(s, got, slurp(kf), !t.killed, t.code, w);
    // a later run with another message must not use the same one-time key
    if (!got.empty() && c["rel"]) {
        Buf m2 = Bytes(c["cs"] + 9).get(20); std::string m2f = d.put("msg2", m2); Result r = run(d, s.bin, {kf, m2f});
        if (r.ok() && r.out.size() > s.a.p.sigb && ref::to_int(r.out.data(), s.a.p.idxb) <= s.idx) fail("%s: %s: a later run uses index %llu again", s.who.c_str(), w.c_str(), (ull)ref::to_int(r.out.data(), s.a.p.idxb));
        x.label("later runs");
    }
    x.nontrivial = t.hit; x.label(t.hit ? (t.killed ? "killed " + t.at : "fault in " + t.at) : "completed"); if (t.hit) x.label(got.empty() ? "nothing released" : got == s.e.sm ? "all released" : "part released"); x.sample = s.who + ": " + w;
}
static void crash(const Case &c, Ctx &x) { Plan p; p.kill_at = (int)c["point"]; traced(c, x, p, "killed"); }
static void fault(const Case &c, Ctx &x) {
    static const char *n[] = {"write fails from here on", "write fails once", "short write", "short write, then failing", "short write, then killed", "killed after the write"};
    Plan p; p.wr = (int)c["point"]; p.act = (int)c["act"]; traced(c, x, p, n[p.act]);
}
// faults the operating system itself provides
static void os(const Case &c, Ctx &x) {
    Setup s; if (!setup(c, x, s)) return;
    Dir d; std::string kf = d.put("key", s.k.file()), mf = d.put("msg", s.m); Opt o; int pfd[2] = {-1, -1}; Buf got; std::string what; uint64_t v = (uint64_t)c["cs"];
    size_t keylen = s.k.pk.size() + s.k.sk.size(); bool collected = true;
    switch (c["kind"]) {
    case 0: o.out = open("/dev/full", O_WRONLY); what = "standard output full"; collected = false; break;
    case 1: case 2: { rlim_t l = c["kind"] == 1 ? v % keylen : s.k.pk.size() + v % 64; if (pipe(pfd)) exit(3); fcntl(pfd[1], F_SETPIPE_SZ, 1 << 20); o.out = pfd[1]; bool ign = v & 1;
        o.child = [=] { rlimit r{l, l}; setrlimit(RLIMIT_FSIZE, &r); if (ign) signal(SIGXFSZ, SIG_IGN); }; what = "file size limit of " + std::to_string(l) + " (key file has " + std::to_string(keylen) + ")"; break; }
    case 3: { rlim_t l = keylen + v % (s.e.sm.size() + 10); bool ign = v & 1; o.child = [=] { rlimit r{l, l}; setrlimit(RLIMIT_FSIZE, &r); if (ign) signal(SIGXFSZ, SIG_IGN); }; what = "file size limit of " + std::to_string(l) + " (output has " + std::to_string(s.e.sm.size()) + ")"; break; }
    case 4: { if (pipe(pfd)) exit(3); close(pfd[0]); pfd[0] = -1; o.out = pfd[1]; bool ign = v & 1; o.child = [=] { if (ign) signal(SIGPIPE, SIG_IGN); }; what = "reader of standard output gone"; collected = false; break; }
    default: what = "nothing wrong"; break;
    }
    Result r = run(d, s.bin, {kf, mf}, o);
    if (o.out >= 0) close(o.out);
    if (pfd[0] >= 0) { u8 b[65536]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) got.insert(got.end(), b, b + n); close(pfd[0]); } else got = r.out;
    if (r.hung) fail("%s: %s: does not end", s.who.c_str(), what.c_str());
    if (!r.exited && r.sig != SIGXFSZ && r.sig != SIGPIPE) fail("%s: %s: killed by signal %d", s.who.c_str(), what.c_str(), r.sig);
    if (!collected && r.ok()) fail("%s: %s: exit status 0", s.who.c_str(), what.c_str());
    Buf key = slurp(kf);
    if (collected) judge(s, got, key, r.exited, r.code, what);
    else if (key.size() != keylen) fail("%s: %s: the key file has %zu bytes", s.who.c_str(), what.c_str(), key.size());
    if (c["kind"] == 5 && !s.e.r && !r.ok()) fail("%s: undisturbed run %s", s.who.c_str(), r.str().c_str());
    x.nontrivial = c["kind"] != 5; x.label(what.substr(0, what.find(" of "))); x.label(r.exited ? "exits" : "signal"); x.sample = s.who + ": " + what;
}
// One key file under several names: runs that reach it by its own name, a symbolic link (to the file or to its folder), a
// hard link or a relative path never use an index twice, and each leaves the advanced key under every name.
static void names(const Case &c, Ctx &x) {
    Setup s; if (!setup(c, x, s)) return;
    Dir d; std::string kf = d.put("key", s.k.file()), sub = d.file("sub"), mf = d.put("msg", s.m); mkdir(sub.c_str(), 0700);
    bool links = !symlink("key", d.file("ln").c_str()) && !symlink(kf.c_str(), (sub + "/ln").c_str()) && !symlink("sub", d.file("s2").c_str()) && !link(kf.c_str(), d.file("hard").c_str()) && !link(kf.c_str(), (sub + "/hard %s%n").c_str());
    if (!links) { x.skipped = true; x.label("no links here"); return; }
    std::vector<std::string> nm = {kf, "key", "./key", "sub/../key", "ln", "sub/ln", "s2/ln", d.file("ln"), "hard", "sub/hard %s%n", "s2/../hard"}; std::set<uint64_t> used; std::string trail;
    Bytes b(mix(c["cs"], 5));
    for (int64_t op : c.lst("ops")) {
        std::string n = nm[op % nm.size()]; trail += (trail.empty() ? "" : ", ") + n; const char *w = s.who.c_str();
        Result r = run(d, s.bin, {n, op & 64 ? mf : "msg"}); std::string what = "key file named as " + trail;
        if (r.hung || !r.exited) fail("%s: %s: %s", w, what.c_str(), r.str().c_str());
        for (auto &o : nm) judge(s, r.out, slurp(o[0] == '/' ? o : d.file(o.c_str())), true, r.code, what + ", seen as " + o);
        if (r.out.size() >= s.a.p.idxb && !used.insert(ref::to_int(r.out.data(), s.a.p.idxb)).second) fail("%s: %s: index used twice", w, what.c_str());
        if (!s.e.r && r.code) fail("%s: %s: exit status %d", w, what.c_str(), r.code);
        if (s.e.r) { x.label("refused"); break; }
        s.k.sk = s.e.sk; s.idx = s.a.index(s.k.sk.data()); s.m = b.get(b.below(300)); d.put("msg", s.m); s.e = expect_sign(s.a, s.k.sk, s.m); x.label("signed");
    }
    x.nontrivial = c.lst("ops").size() > 1; x.sample = s.who + ": " + trail;
}
// keys that are used up, and their last signatures
static void refuse(const Case &c, Ctx &x) {
    Setup s; if (!setup(c, x, s)) return;
    const ref::P &p = s.a.p; uint64_t last = last_index(p), idx = last + 1 - (c["left"] > (int64_t)last ? 0 : c["left"]);
    if (s.fast) idx = last + 1;                                                     // the fast signer's state cannot be placed
    s.a.set_index(s.k.sk.data(), idx); Dir d; std::string mf = d.put("msg", s.m);
    for (int i = 0; i < 4; i++) {
        uint64_t now = s.a.index(s.k.sk.data()); s.idx = now; s.e = expect_sign(s.a, s.k.sk, s.m);
        std::string kf = d.put("key", s.k.file()); Result r = run(d, s.bin, {kf, mf}); Buf key = slurp(kf); std::string what = "index " + std::to_string(now) + " of " + std::to_string(last);
        if (r.hung || !r.exited) fail("%s: %s: %s", s.who.c_str(), what.c_str(), r.str().c_str());
        judge(s, r.out, key, true, r.code, what);
        if (now > last && r.code == 0) fail("%s: %s: exit status 0 for a key that is used up", s.who.c_str(), what.c_str());
        if (now > last && !r.out.empty()) fail("%s: %s: output from a key that is used up", s.who.c_str(), what.c_str());
        if (now <= last && r.code) fail("%s: %s: exit status %d", s.who.c_str(), what.c_str(), r.code);
        x.label(now > last ? "refused" : "last signatures");
        s.k.sk.assign(key.begin() + s.k.pk.size(), key.end());
        if (now > last && s.a.index(s.k.sk.data()) <= last) fail("%s: %s: the refused key is usable again (index %llu)", s.who.c_str(), what.c_str(), (ull)s.a.index(s.k.sk.data()));
    }
    x.nontrivial = true; x.sample = s.who;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    // tools: both families, both signers; small, middle and large key files
    std::vector<Fixed> cfg; auto &S = ref::standard(); unsigned n = 0;
    for (size_t i = 0; i < S.size(); i++) if (S[i].th <= (T ? 10u : 10u)) { bool take = T || S[i].name == "XMSS-SHA2_10_256" || S[i].name == "XMSSMT-SHA2_20/2_256" || S[i].name == "XMSSMT-SHAKE_40/8_512" || S[i].name == "XMSSMT-SHA2_60/12_192" || S[i].name == "XMSS-SHAKE256_10_192" || S[i].name == "XMSSMT-SHA2_40/4_512"; if (take) for (int f = 0; f < 2; f++) cfg.push_back({{"ps", (int64_t)i}, {"fast", f}, {"mock", 1}}), n++; }
    std::vector<Field> fs = cat(index_fields(), {num("ks", 0, 2), seed("cs"), num("mv", 0, 1 << 30), num("mm", 0, 4), num("out", 0, 1), num("rel", 0, 1)});
    auto points = [&](int a, int b, bool acts) { std::vector<Fixed> o; for (auto e : cfg) for (int q = a; q <= b; q++) { e["point"] = q; if (acts) for (int k = 0; k < 6; k++) { e["act"] = k; o.push_back(e); } else o.push_back(e); } return o; };
    v.push_back({"crash", fs, points(0, 44, false), T ? 4 : 2, 2, crash}); v.back().max_shrinks = 40;
    v.back().rule = "the tool is killed before each of its system calls after opening the key file, for generated messages and indices; non-trivial: the kill happened";
    v.push_back({"fault", fs, points(0, 7, true), T ? 6 : 2, 2, fault}); v.back().max_shrinks = 40;
    v.back().rule = "each write to the key file or standard output fails (for good or once), is short, is short and followed by failure or a kill; non-trivial: the write was reached";
    std::vector<Fixed> oc; for (auto e : cfg) for (int k = 0; k < 6; k++) { e["kind"] = k; oc.push_back(e); }
    v.push_back({"os", fs, oc, T ? 60 : 15, 15, os}); v.back().max_shrinks = 60;
    v.back().rule = "full device, file size limits, vanished reader; non-trivial: a fault is set up";
    std::vector<Field> fl = fs; fl.push_back(num("left", 0, 3));
    v.push_back({"refuse", fl, cfg, T ? 30 : 10, 10, refuse}); v.back().max_shrinks = 40;
    v.back().rule = "keys at the end of their life, and used-up keys";
    std::vector<Field> fn = fs; fn.push_back(list("ops", 8, {{1, 0, 127}}));
    v.push_back({"names", fn, cfg, T ? 40 : 6, 6, names}); v.back().max_shrinks = 40;
    v.back().rule = "several signatures from one key file named directly, by relative paths, symbolic and hard links: every name shows the advanced key after each run; non-trivial: at least two runs";
    std::vector<Fixed> rc; for (size_t i = 0; i < S.size(); i++) if (S[i].th == 5 && S[i].d == 4 && (T || S[i].n == 24 || S[i].func == 0)) rc.push_back({{"ps", (int64_t)i}, {"fast", 1}, {"mock", 0}});
    std::vector<Fixed> rp; for (auto e : rc) for (int q = 0; q < 8; q++) { e["point"] = q; e["act"] = q % 6; rp.push_back(e); }
    v.push_back({"real-fault", fs, rp, T ? 4 : 1, 1, fault}); v.back().max_shrinks = 5; v.back().rule = "the same faults with the tools as built by the Makefile";
    return v;
}
