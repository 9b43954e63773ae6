// C23: the tools sign and accept only what they have read completely. Every call with which a tool reads, measures, opens
// or gets memory is made to fail (or reads to end early or be short), and messages come from files of unusual kinds.
#include "trace.hpp"
using namespace eng; using namespace lib; using namespace shapes; using namespace cli;

struct Setup { std::string kind; bool fast, mt; Api a; cli::Key k; Buf m, tail; uint64_t idx; Expect e; std::string who; };
static bool setup(const Case &c, Ctx &x, Setup &s, const char *which) {
    const ref::P &p = ref::standard()[c["ps"]]; bool mock = c["mock"]; s.kind = mock ? "mock" : ""; s.fast = c["fast"]; s.mt = p.mt;
    if (mock && !(get("mockbasic").mock_ok && get("mockfast").mock_ok)) { x.skipped = true; return false; }
    s.a = by_oid(get(s.kind + (s.fast ? "fast" : "basic")), p); s.k = make(s.a, c["ks"]);
    int64_t v = c["mv"]; size_t n; switch (c["mm"]) { case 0: n = 0; break; case 1: n = v % 100; break; case 2: n = v % 5000; break; case 3: n = 4096 * (v % 5 + 1) + v / 6 % 5 - 2; break; case 4: n = v % 200000; break; case 5: n = 131072 * (v % 4) + v / 4 % 40000; break;
        default: { size_t B = v % 3 ? 4096 : 4096 << v / 3 % 5; n = (p.sigb + B - 1) / B * B + B * (v / 16 % 2) - p.sigb; }   // the signed message ends with a block
    }
    s.m = Bytes(c["cs"]).get(n);
    if (!s.fast) s.a.set_index(s.k.sk.data(), pick_index(p, c) & ~1ULL);
    s.idx = s.a.index(s.k.sk.data()); s.e = expect_sign(s.a, s.k.sk, s.m);
    s.who = std::string(p.mt ? "xmssmt_" : "xmss_") + which + (s.fast ? "_fast " : " ") + pname(p) + ", index " + std::to_string(s.idx) + ", message of " + std::to_string(n) + " bytes";
    return !s.e.r;
}
static void judge_sign(const Setup &s, const Buf &out, const Buf &key, int code, const std::string &what) {
    Buf old = cat(s.k.file(), s.tail), adv = cat(cat(s.k.pk, s.e.sk), s.tail); const char *w = s.who.c_str(), *h = what.c_str();
    if (key != old && key != adv) fail("%s: %s: the key file holds neither the key from before nor the advanced key (%s)", w, h, diff(key, adv).c_str());
    if (out.size() > s.e.sm.size() || memcmp(out.data(), s.e.sm.data(), out.size())) fail("%s: %s: exit status %d, and the output is not the signed content of the message file: %s", w, h, code, diff(out, s.e.sm).c_str());
    if (!out.empty() && key != adv) fail("%s: %s: output, but the key file is not advanced", w, h);
    if (code == 0 && (out != s.e.sm || key != adv)) fail("%s: %s: exit status 0, but %zu of %zu bytes are out%s", w, h, out.size(), s.e.sm.size(), key == adv ? "" : " and the key is not advanced");
    if (code != 0 && !out.empty()) fail("%s: %s: exit status %d, but %zu bytes of output", w, h, code, out.size());
}
static const char *acts[] = {"fails", "is interrupted", "ends early", "is short", "gets no memory"};
static void sign_fault(const Case &c, Ctx &x) {
    Setup s; if (!setup(c, x, s, "sign")) return;
    if (!tracing()) { x.skipped = true; return; }
    Dir d; if (c["tail"]) s.tail = Bytes(c["cs"] + 3).get(1 + c["mv"] % 9000);
    std::string kf = d.put("key", cat(s.k.file(), s.tail)), mf = d.put("msg", s.m); int out = open(d.file(".out").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    Plan pl; pl.in = (int)c["point"]; pl.iact = (int)c["act"]; pl.keep = c["keep"];
    Traced t = trace(d, tool(s.kind, s.mt, "sign", s.fast), {kf, mf}, out, pl); close(out); Buf got = slurp(d.file(".out"));
    if (!t.started) { x.skipped = true; return; }
    std::string w = t.hit ? t.at + (c["keep"] ? " from here on " : " ") + acts[pl.iact] : "undisturbed run";
    if (t.hung) fail("%s: %s: does not end", s.who.c_str(), w.c_str());
    if (!t.exited) fail("%s: %s: killed by signal %d", s.who.c_str(), w.c_str(), t.sig);
    if (!t.hit && t.code) fail("%s: undisturbed run exits with %d", s.who.c_str(), t.code);
    if (t.hit && pl.iact == IN_EOF && t.cls == 'r' && got.size() >= s.a.p.sigb && got.size() < s.e.sm.size()) {   // then the file had ended there, for a tool that reads to the end
        size_t q = got.size() - s.a.p.sigb; if (q && !memcmp(&got[s.a.p.sigb], s.m.data(), q)) { s.m.resize(q); } else if (!q) s.m.clear();
        s.e = expect_sign(s.a, s.k.sk, s.m); s.m = slurp(mf); x.label("signed up to where the file ended");
    }
    judge_sign(s, got, slurp(kf), t.code, w); if (slurp(mf) != s.m) fail("%s: %s: the message file changed", s.who.c_str(), w.c_str());
    x.nontrivial = t.hit; x.label(w); if (t.hit) x.label(t.code ? "refused" : "signed all the same"); x.sample = s.who + ": " + w;
}
// signed files whose beginning is valid, or that are valid
static void open_fault(const Case &c, Ctx &x) {
    Setup s; if (!setup(c, x, s, "open")) return;
    if (!tracing()) { x.skipped = true; return; }
    Dir d; Bytes b(c["cs"] + 5); Buf sm = s.e.sm; std::string v; bool valid = false;
    switch (c["variant"]) {
    case 0: valid = true; v = "valid file"; break;
    case 1: { Buf y = odd_bytes(b); sm = cat(sm, y); v = "valid file, bytes appended"; break; }
    case 2: { Buf y = b.get(1 + b.below(20000)); sm = cat(sm, y); v = "valid file, many bytes appended"; break; }
    case 3: sm.back() ^= 1; v = "last byte altered"; break;
    case 4: sm[b.below(sm.size())] ^= 1 << b.below(8); v = "one bit altered"; break;
    default: { size_t n = 4096 * (sm.size() / 4096) + (sm.size() % 4096 ? 4096 : 0); if (n == sm.size()) n += 4096; sm.resize(n, 0); v = "valid file, zero bytes up to a page"; }
    }
    std::string kf = d.put("key", c["tail"] ? s.k.file() : s.k.pk), sf = d.put("sig", sm); Buf k0 = slurp(kf); int out = open(d.file(".out").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    Plan pl; pl.in = (int)c["point"]; pl.iact = (int)c["act"]; pl.keep = c["keep"];
    Traced t = trace(d, tool(s.kind, s.mt, "open", s.fast), {kf, sf}, out, pl); close(out);
    if (!t.started) { x.skipped = true; return; }
    std::string w = v + ", " + (t.hit ? t.at + (c["keep"] ? " from here on " : " ") + acts[pl.iact] : "undisturbed run");
    if (t.hung) fail("%s: %s: does not end", s.who.c_str(), w.c_str());
    if (!t.exited) fail("%s: %s: killed by signal %d", s.who.c_str(), w.c_str(), t.sig);
    if (!t.hit && (t.code == 0) != valid) fail("%s: %s: exit status %d", s.who.c_str(), w.c_str(), t.code);
    bool ended = t.hit && pl.iact == IN_EOF && t.cls == 'r' && (c["variant"] == 1 || c["variant"] == 2 || c["variant"] == 5);   // the file had ended there, for a tool that reads to the end
    if (t.code == 0 && !valid && !ended) fail("%s: %s: exit status 0 for a file that is not valid", s.who.c_str(), w.c_str());
    if (slurp(kf) != k0 || slurp(sf) != sm) fail("%s: %s: changes its input files", s.who.c_str(), w.c_str());
    x.nontrivial = t.hit; x.label(w); if (t.hit && valid) x.label(t.code ? "valid: refused" : "valid: accepted all the same"); x.sample = s.who + ": " + w;
}
// a part of the disk that cannot be read: the message, signed message or key file from some byte on
static void bad_part(const Case &c, Ctx &x) {
    bool sign = c["tool"] == 0, onkey = c["file"]; Setup s; if (!setup(c, x, s, sign ? "sign" : "open")) return;
    if (!tracing()) { x.skipped = true; return; }
    Dir d; Bytes b(c["cs"] + 5); Buf sm = s.e.sm; bool valid = true; size_t whole = sm.size();
    if (!sign && !onkey && c["mv"] % 4) { Buf y = c["mv"] % 2 ? odd_bytes(b) : b.get(1 + b.below(20000)); sm = cat(sm, y); valid = false; }
    Buf kb = sign || c["mv"] & 64 ? s.k.file() : s.k.pk; std::string kf = d.put("key", kb), of = d.put("msg", sign ? s.m : sm); size_t size = onkey ? kb.size() : sign ? s.m.size() : sm.size();
    Plan pl; pl.bad = onkey ? kf : of; uint64_t v = (uint64_t)c["at"];
    switch (v % 4) { case 0: pl.bad_from = (int64_t)(v / 4 % (size + 1)); break; case 1: pl.bad_from = (int64_t)(v / 4 % (size / 4096 + 1) * 4096); break; case 2: pl.bad_from = (int64_t)std::min(size, valid ? size - v / 4 % (std::min<size_t>(size, 3) + 1) : whole); break; default: pl.bad_from = (int64_t)(size / 512 ? v / 4 % (size / 512) * 512 : 0); }
    int out = open(d.file(".out").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); Traced t = trace(d, tool(s.kind, s.mt, sign ? "sign" : "open", s.fast), {kf, of}, out, pl); close(out); Buf got = slurp(d.file(".out"));
    if (!t.started) { x.skipped = true; return; }
    std::string w = std::string(onkey ? "key file" : sign ? "message file" : "signed file") + " of " + std::to_string(size) + " bytes cannot be read from byte " + std::to_string(pl.bad_from) + " on";
    if (!valid) w += ", a valid signed message ends at byte " + std::to_string(whole);
    if (t.hung) fail("%s: %s: does not end", s.who.c_str(), w.c_str());
    if (!t.exited) fail("%s: %s: killed by signal %d", s.who.c_str(), w.c_str(), t.sig);
    if (sign) { judge_sign(s, got, slurp(kf), t.code, w); if (t.code == 0 && (size_t)pl.bad_from < (onkey ? s.k.pk.size() + s.k.sk.size() : size)) fail("%s: %s: exit status 0", s.who.c_str(), w.c_str()); }
    else { if (t.code == 0 && !valid) fail("%s: %s: exit status 0 for a file that is not valid", s.who.c_str(), w.c_str()); if (slurp(kf) != kb || slurp(of) != sm) fail("%s: %s: changes its input files", s.who.c_str(), w.c_str()); }
    x.nontrivial = (size_t)pl.bad_from < size; x.label(std::string(sign ? "sign: " : "open: ") + (onkey ? "key file" : "other file")); x.label(t.code ? "refused" : "done all the same"); x.sample = s.who + ": " + w;
}
// the tool's own requests for memory
static void memory(const Case &c, Ctx &x) {
    bool sign = c["tool"] == 0; Setup s; if (!setup(c, x, s, sign ? "sign" : "open")) return;
    Dir d; int at = (int)c["point"] + 1; std::string kf = d.put("key", s.k.file()), mf = d.put("msg", sign ? s.m : s.e.sm); Opt o; o.child = [&] { setenv("VERIF_OOM", std::to_string(c["keep"] ? -at : at).c_str(), 1); };
    Result r = run(d, tool(s.kind, s.mt, sign ? "sign" : "open", s.fast), {kf, mf}, o); bool hit = r.err.find("[memory refused]") != std::string::npos; std::string w = hit ? "memory refused" : "undisturbed run";
    if (r.hung) fail("%s: %s: does not end", s.who.c_str(), w.c_str());
    if (!r.exited) fail("%s: %s: %s", s.who.c_str(), w.c_str(), r.str().c_str());
    if (sign) judge_sign(s, r.out, slurp(kf), r.code, w); else if (slurp(kf) != s.k.file() || slurp(mf) != s.e.sm) fail("%s: %s: changes its input files", s.who.c_str(), w.c_str());
    if (!hit && r.code) fail("%s: undisturbed run exits with %d", s.who.c_str(), r.code);
    x.nontrivial = hit; x.label((sign ? "sign: " : "open: ") + w); if (hit) x.label(r.code ? "refused" : "done all the same"); x.sample = s.who + ": " + w;
}
// messages from files of unusual kinds: what any reader of that file gets is what has to be signed, or the tool refuses
static void odd(const Case &c, Ctx &x) {
    Setup s; if (!setup(c, x, s, "sign")) return;
    static const char *special[] = {"/proc/version", "/proc/filesystems", "/proc/cmdline", "/proc/sys/kernel/ostype", "/sys/kernel/mm/transparent_hugepage/enabled"};
    Dir d; Opt o; std::string what, mf; pid_t feeder = 0; bool must = false, endless = false; Buf tail = c["tail"] ? Bytes(c["cs"] + 3).get(1 + c["mv"] % 9000) : Buf(); s.tail = tail;
    if (s.m.size() > 60000) s.m.resize(60000);
    auto feed = [&](int fd_or_open, const std::string &path) { feeder = fork(); if (!feeder) { signal(SIGPIPE, SIG_IGN); int f = path.empty() ? fd_or_open : open(path.c_str(), O_WRONLY); size_t q = 0; while (q < s.m.size()) { ssize_t n = write(f, s.m.data() + q, std::min<size_t>(s.m.size() - q, 3000)); if (n <= 0) break; q += n; } _exit(0); } };
    int pfd[2] = {-1, -1};
    switch (c["form"]) {
    case 0: { const char *f = special[c["mv"] % 5]; Buf q = slurp(f), q2 = slurp(f); if (q.empty() || q != q2) { x.skipped = true; return; } s.m = q; mf = f; what = f; break; }
    case 1: { mf = d.file("fifo"); mkfifo(mf.c_str(), 0600); feed(-1, mf); what = "named pipe"; break; }
    case 2: { if (pipe(pfd)) exit(3); feed(pfd[1], ""); close(pfd[1]); int in = pfd[0]; o.child = [in] {}; mf = "/dev/stdin"; what = "pipe as standard input"; break; }
    case 3: mf = d.put("msg", s.m); { std::string l = d.file("link"); (void)!symlink(mf.c_str(), l.c_str()); mf = l; } must = true; what = "symbolic link"; break;
    case 4: mf = "/dev/zero"; endless = true; o.child = [] { rlimit l{400u << 20, 400u << 20}; setrlimit(RLIMIT_AS, &l); }; o.limit = 1; what = "endless device"; break;
    case 5: s.m.clear(); mf = "/dev/null"; what = "null device"; break;
    case 6: { mf = d.file("sparse"); int f = open(mf.c_str(), O_CREAT | O_RDWR, 0600); (void)!ftruncate(f, (off_t)(c["mv"] % 300000)); close(f); s.m.assign(c["mv"] % 300000, 0); must = true; what = "file with holes"; break; }
    case 7: mf = d.put("msg", s.m); chmod(mf.c_str(), 0400); must = true; what = "read-only message file"; break;
    default: mf = d.put("msg", s.m); must = true; what = "plain file"; break;
    }
    s.e = expect_sign(s.a, s.k.sk, s.m); std::string kf = d.put("key", cat(s.k.file(), tail)); if (!tail.empty()) what += ", key file with " + std::to_string(tail.size()) + " more bytes";
    if (c["form"] == 2) { int in = pfd[0]; o.out = -1; int keep = fcntl(in, F_DUPFD, 100); close(in); o.child = [keep] { dup2(keep, 0); close(keep); }; pfd[0] = keep; }
    if (c["form"] == 1 || c["form"] == 2) o.limit = 40;
    Result r = run(d, tool(s.kind, s.mt, "sign", s.fast), {kf, mf}, o); if (feeder > 0) { kill(feeder, SIGKILL); waitpid(feeder, nullptr, 0); } if (pfd[0] >= 0) close(pfd[0]);
    if (r.hung && !endless) fail("%s: %s: does not end", s.who.c_str(), what.c_str());      // a reader of an endless device may not end
    if (!r.exited && !endless) fail("%s: %s: %s", s.who.c_str(), what.c_str(), r.str().c_str());
    if (endless) { if (r.ok() || !r.out.empty()) fail("%s: %s: exit status %d and %zu bytes of output", s.who.c_str(), what.c_str(), r.code, r.out.size()); if (slurp(kf) != cat(s.k.file(), tail)) fail("%s: %s: the key file changed", s.who.c_str(), what.c_str()); }
    else judge_sign(s, r.out, slurp(kf), r.code, what);
    if (must && r.code) fail("%s: %s: exit status %d", s.who.c_str(), what.c_str(), r.code);
    x.nontrivial = true; x.label(what.substr(0, what.find(", key"))); x.label(r.code ? "refused" : "signed"); x.sample = s.who + ": " + what;
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v; std::vector<Fixed> cfg, real; auto &S = ref::standard();
    for (size_t i = 0; i < S.size(); i++) for (int f = 0; f < 2; f++) {
        if (S[i].th <= 10 && (T || S[i].name == "XMSS-SHA2_10_256" || S[i].name == "XMSSMT-SHA2_20/2_256" || S[i].name == "XMSSMT-SHAKE_40/8_512" || S[i].name == "XMSSMT-SHA2_60/12_192" || S[i].name == "XMSS-SHAKE256_10_192")) cfg.push_back({{"ps", (int64_t)i}, {"fast", f}, {"mock", 1}});
        if (S[i].th == 5 && S[i].d == 4 && f == 1 && (T || S[i].n == 24)) real.push_back({{"ps", (int64_t)i}, {"fast", f}, {"mock", 0}});
    }
    std::vector<Field> fs = cat(index_fields(), {num("ks", 0, 2), seed("cs"), num("mv", 0, 1 << 30), num("mm", {{1, 0, 0}, {8, 1, 6}}), num("tail", {{3, 0, 0}, {1, 1, 1}})});
    auto points = [&](const std::vector<Fixed> &b, int n) { std::vector<Fixed> o; for (auto e : b) for (int q = 0; q < n; q++) for (int k = 0; k < IN_NUM; k++) for (int r = 0; r < 2; r++) { e["point"] = q; e["act"] = k; e["keep"] = r; o.push_back(e); } return o; };
    v.push_back({"sign-fault", fs, points(cfg, 24), T ? 4 : 1, 1, sign_fault}); v.back().max_shrinks = 30; v.back().max_shrink_s = 20;
    v.back().rule = "each call of the signing tool that opens, measures, reads or gets memory fails, is interrupted, ends early, is short (once or from there on); non-trivial: the call was reached";
    std::vector<Field> fo = fs; fo.push_back(num("variant", 0, 5)); for (auto &f : fo) if (f.name == "mm") f = num("mm", {{1, 0, 5}, {2, 6, 6}});
    v.push_back({"open-fault", fo, points(cfg, 22), T ? 6 : 2, 2, open_fault}); v.back().max_shrinks = 30; v.back().max_shrink_s = 20;
    v.back().rule = "the same for the verification tool, with valid files and files of which the beginning is valid; non-trivial: the call was reached";
    std::vector<Fixed> bc; for (auto e : cfg) for (int q = 0; q < 2; q++) for (int t = 0; t < 2; t++) { e["file"] = q; e["tool"] = t; bc.push_back(e); }
    v.push_back({"bad-part", cat(fs, {num("at", 0, 1 << 30)}), bc, T ? 500 : 40, 10, bad_part}); v.back().max_shrinks = 30; v.back().max_shrink_s = 20;
    v.back().rule = "message, signed message or key file cannot be read from a generated byte on; non-trivial: that byte is in the file";
    std::vector<Fixed> mc; for (auto e : cfg) for (int q = 0; q < 3; q++) for (int k = 0; k < 2; k++) for (int t = 0; t < 2; t++) { e["point"] = q; e["keep"] = k; e["tool"] = t; mc.push_back(e); }
    v.push_back({"memory", fs, mc, T ? 20 : 3, 3, memory}); v.back().max_shrinks = 30; v.back().max_shrink_s = 20;
    v.back().rule = "each request for memory of the tools is refused (once or from there on); non-trivial: the request was made";
    std::vector<Fixed> oc; for (auto e : cfg) for (int k = 0; k < 9; k++) { e["form"] = k; oc.push_back(e); }
    v.push_back({"odd", fs, oc, T ? 40 : 8, 8, odd}); v.back().max_shrinks = 30; v.back().max_shrink_s = 20;
    v.back().rule = "messages in named pipes, standard input, /proc and /sys files, devices, files with holes, links; key files with further bytes behind the keys";
    v.push_back({"real-fault", fs, points(real, 24), 1, 1, sign_fault}); v.back().max_shrinks = 5; v.back().rule = "the faults with the tools as built by the Makefile";
    return v;
}
