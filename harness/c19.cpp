// C19: the key generation tool exits with status 0 only after the complete key pair was delivered. Every write to
// standard output is made to fail, to be short, or the operating system refuses it (full device, size limit, no reader).
#include "trace.hpp"
using namespace eng; using namespace lib; using namespace shapes; using namespace cli;
struct Setup { std::string bin, who; Api a; Buf want; uint64_t rng; };
static bool setup(const Case &c, Ctx &x, Setup &s) {
    const ref::P &p = ref::standard()[c["ps"]]; bool mock = c["mock"], fast = c["fast"]; std::string kind = mock ? "mock" : "";
    if (mock && !(get("mockbasic").mock_ok && get("mockfast").mock_ok)) { x.skipped = true; return false; }
    s.a = by_oid(get(kind + (fast ? "fast" : "basic")), p); s.bin = tool(kind, p.mt, "keypair", fast); s.rng = 1;
    s.who = std::string(p.mt ? "xmssmt_keypair" : "xmss_keypair") + (fast ? "_fast " : " ") + pname(p);
    static std::map<std::string, Buf> known; Buf &w = known[s.who + kind];
    if (w.empty()) {                                                               // the undisturbed run
        Dir d; Opt o; o.rng = s.rng; Result r = run(d, s.bin, {p.name}, o);
        if (!r.ok()) fail("%s: undisturbed run %s", s.who.c_str(), r.str().c_str());
        if (r.out.size() != s.a.pk + s.a.sk) fail("%s: undisturbed run writes %zu bytes", s.who.c_str(), r.out.size());
        w = r.out;
    }
    s.want = w; return true;
}
static void judge(const Setup &s, const Buf &out, bool exited, int code, bool all_known, const std::string &what) {
    if (out.size() > s.want.size() || memcmp(out.data(), s.want.data(), out.size())) fail("%s: %s: the output is not (a part of) the key pair", s.who.c_str(), what.c_str());
    if (exited && code == 0 && all_known && out != s.want) fail("%s: %s: exit status 0, but only %zu of %zu bytes of the key pair were delivered", s.who.c_str(), what.c_str(), out.size(), s.want.size());
}
static void fault(const Case &c, Ctx &x) {
    static const char *n[] = {"write fails from here on", "write fails once", "short write", "short write, then failing", "short write, then killed", "killed after the write"};
    Setup s; if (!setup(c, x, s)) return;
    if (!tracing()) { x.skipped = true; return; }
    Plan pl; pl.wr = (int)c["point"]; pl.act = (int)c["act"]; Dir d; bool pipe_out = c["out"] && s.want.size() < 60000; int pfd[2] = {-1, -1}, out;
    if (pipe_out) { if (pipe(pfd)) exit(3); out = pfd[1]; } else out = open(d.file(".out").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    Traced t = trace(d, s.bin, {ref::standard()[c["ps"]].name}, out, pl, 100, true); close(out); Buf got;
    if (pipe_out) { u8 b[65536]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) got.insert(got.end(), b, b + k); close(pfd[0]); } else got = slurp(d.file(".out"));
    if (!t.started) { x.skipped = true; return; }
    std::string w = n[pl.act]; w += t.hit ? ", " + t.at : ", not reached";
    if (t.hung) fail("%s: %s: does not end", s.who.c_str(), w.c_str());
    if (!t.killed && !t.exited) fail("%s: %s: killed by signal %d", s.who.c_str(), w.c_str(), t.sig);
    if (!t.hit && t.code) fail("%s: undisturbed run exits with %d", s.who.c_str(), t.code);
    judge(s, got, !t.killed, t.code, true, w);
    x.nontrivial = t.hit; x.label(t.hit ? w : "completed"); if (t.hit) x.label(got.empty() ? "nothing out" : got == s.want ? "all out" : "part out"); x.sample = s.who + ": " + w;
}
static void os(const Case &c, Ctx &x) {
    Setup s; if (!setup(c, x, s)) return;
    Dir d; Opt o; o.rng = s.rng; int pfd[2] = {-1, -1}; uint64_t v = (uint64_t)c["v"]; std::string what; bool collected = true;
    switch (c["kind"]) {
    case 0: o.out = open("/dev/full", O_WRONLY); what = "standard output full"; collected = false; break;
    case 1: { rlim_t l = v % s.want.size(); bool ign = c["ign"]; o.child = [=] { rlimit r{l, l}; setrlimit(RLIMIT_FSIZE, &r); if (ign) signal(SIGXFSZ, SIG_IGN); }; what = "file size limit of " + std::to_string(l); break; }
    case 2: { if (pipe(pfd)) exit(3); close(pfd[0]); o.out = pfd[1]; bool ign = c["ign"]; o.child = [=] { if (ign) signal(SIGPIPE, SIG_IGN); }; what = "reader of standard output gone"; collected = false; break; }
    case 3: o.child = [] { close(1); }; what = "standard output closed"; break;
    default: what = "nothing wrong";
    }
    Result r = run(d, s.bin, {ref::standard()[c["ps"]].name}, o); if (o.out >= 0) close(o.out);
    if (r.hung) fail("%s: %s: does not end", s.who.c_str(), what.c_str());
    if (!r.exited && r.sig != SIGXFSZ && r.sig != SIGPIPE) fail("%s: %s: %s", s.who.c_str(), what.c_str(), r.str().c_str());
    if (c["kind"] != 4 && r.ok()) fail("%s: %s: exit status 0 although the key pair was not delivered", s.who.c_str(), what.c_str());
    if (c["kind"] == 4 && !r.ok()) fail("%s: undisturbed run %s", s.who.c_str(), r.str().c_str());
    if (collected) judge(s, r.out, r.exited, r.code, true, what);
    x.nontrivial = c["kind"] != 4; x.label(what.substr(0, what.find(" of "))); x.label(r.exited ? "exits" : "signal"); x.sample = s.who + ": " + what;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v; auto &S = ref::standard(); std::vector<Fixed> cfg, real;
    for (size_t i = 0; i < S.size(); i++) for (int f = 0; f < 2; f++) {
        if (S[i].th <= 10 && (T || i % 5 == 0 || S[i].name == "XMSS-SHA2_10_256" || S[i].name == "XMSSMT-SHA2_20/2_256")) cfg.push_back({{"ps", (int64_t)i}, {"fast", f}, {"mock", 1}});
        if (S[i].th == 5 && S[i].d == 4 && (T || S[i].n == 32)) real.push_back({{"ps", (int64_t)i}, {"fast", f}, {"mock", 0}});
    }
    std::vector<Field> fs = {num("out", 0, 1)};
    auto points = [&](const std::vector<Fixed> &b) { std::vector<Fixed> o; for (auto e : b) for (int q = 0; q < 4; q++) for (int k = 0; k < 6; k++) { e["point"] = q; e["act"] = k; o.push_back(e); } return o; };
    v.push_back({"fault", fs, points(cfg), T ? 4 : 1, 1, fault}); v.back().max_shrinks = 20;
    v.back().rule = "each write of the tool fails (for good or once), is short, is short and followed by failure or a kill; non-trivial: the write was reached";
    std::vector<Fixed> oc; for (auto e : cfg) for (int k = 0; k < 5; k++) { e["kind"] = k; oc.push_back(e); }
    v.push_back({"os", {num("v", 0, 1 << 30), num("ign", 0, 1)}, oc, T ? 60 : 8, 8, os}); v.back().max_shrinks = 40;
    v.back().rule = "full device, file size limits at any length, vanished reader, closed standard output; non-trivial: a fault is set up";
    v.push_back({"real-fault", fs, points(real), T ? 2 : 1, 1, fault}); v.back().max_shrinks = 10; v.back().rule = "the same faults with the tools as built by the Makefile";
    std::vector<Fixed> ro; for (auto e : real) for (int k = 0; k < 5; k++) { e["kind"] = k; ro.push_back(e); }
    v.push_back({"real-os", {num("v", 0, 1 << 30), num("ign", 0, 1)}, ro, T ? 8 : 2, 2, os}); v.back().max_shrinks = 20; v.back().rule = "the same conditions with the tools as built by the Makefile";
    return v;
}
