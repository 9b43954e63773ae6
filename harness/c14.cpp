// C14: the command-line tools generate, sign and verify consistently through files.
#include "cli.hpp"
#include <sys/mman.h>
using namespace eng; using namespace lib; using namespace shapes; using namespace cli;

struct Tools { std::string kind; bool mt, fast; const Lib *L; Api a; };
static bool setup(const Case &c, Ctx &x, Tools &t) {
    const ref::P &p = ref::standard()[c["ps"]]; t.kind = c["mock"] ? "mock" : ""; t.mt = p.mt; t.fast = c["fast"];
    t.L = &get(std::string(c["mock"] ? "mock" : "") + (t.fast ? "fast" : "basic"));
    if (c["mock"] && !(get("mockbasic").mock_ok && get("mockfast").mock_ok)) { x.skipped = true; return false; }
    t.a = by_oid(*t.L, p); return true;
}
static std::string who(const Tools &t, const char *n) { return t.kind + (t.kind.empty() ? "" : " ") + (t.mt ? "xmssmt_" : "xmss_") + n + (t.fast ? "_fast" : "") + " " + pname(t.a.p); }
static Buf content(Bytes &b, int64_t z) {
    size_t n; int64_t v = z >> 3;
    switch (z & 7) { case 0: n = 0; break; case 1: n = v % 40; break; case 2: n = v % 5000; break; case 3: n = 4096 * (v % 5) + (v / 5) % 3; n = n ? n - 1 : 0; break; case 4: n = v % 70000; break; default: n = v % 300; }
    Buf m = b.get(n); switch (v % 5) { case 0: if (n) { std::fill(m.begin(), m.end(), (u8)(v & 1 ? '\n' : 0)); } break; case 1: for (auto &y : m) y = "a\n\r\x1a\0z\xff%"[y & 7]; break; default:; }
    return m;
}
static void expect_open(const Tools &t, const Dir &d, const std::string &kf, const std::string &sf, bool good, bool fast, const std::string &what) {
    Buf k0 = slurp(kf), s0 = slurp(sf);
    Result r = run(d, tool(t.kind, t.mt, "open", fast), {kf, sf});
    if (r.hung || (!r.exited)) fail("%s: %s: the tool %s", who(t, "open").c_str(), what.c_str(), r.str().c_str());
    if (good && r.code) fail("%s: %s: exit status %d", who(t, "open").c_str(), what.c_str(), r.code);
    if (!good && !r.code) fail("%s: %s: exit status 0", who(t, "open").c_str(), what.c_str());
    if (slurp(kf) != k0 || slurp(sf) != s0) fail("%s: %s: changes its input files", who(t, "open").c_str(), what.c_str());
}
// The signing tool is what makes the erasure of a used-up key last: none of its secret seeds may stay in the file.
static void expect_wiped(const Tools &t, const Buf &before, const Buf &after, const std::string &w) {
    const ref::P &p = t.a.p; const u8 *s = before.data() + 4 + p.idxb;
    for (int i = 0; i < 2; i++) {
        const u8 *q = s + (size_t)i * p.n; if (std::all_of(q, q + p.n, [&](u8 y) { return y == *q; })) continue;   // erased before
        if (std::search(after.begin(), after.end(), q, q + p.n) != after.end()) fail("%s: the key is used up, but the %s stays in the key file", w.c_str(), i ? "seed of the randomisers" : "secret seed");
    }
}
static void history(const Case &c, Ctx &x) {
    Tools t; if (!setup(c, x, t)) return;
    const ref::P &p = t.a.p; Bytes b(c["cs"]); Dir d; Buf pk, sk;
    if (c["gen"]) {
        Opt o; o.rng = c["ks"]; Result r = run(d, tool(t.kind, t.mt, "keypair", t.fast), {p.name}, o);
        if (!r.ok()) fail("%s: %s", who(t, "keypair").c_str(), r.str().c_str());
        if (r.out.size() != t.a.pk + t.a.sk) fail("%s: writes %zu bytes, the keys have %zu and %zu", who(t, "keypair").c_str(), r.out.size(), t.a.pk, t.a.sk);
        pk.assign(r.out.begin(), r.out.begin() + t.a.pk); sk.assign(r.out.begin() + t.a.pk, r.out.end());
        if (ref::to_int(pk.data(), 4) != p.oid || ref::to_int(sk.data(), 4) != p.oid || t.a.index(sk.data()) != 0) fail("%s: the file does not hold a public and a secret key of this set at index 0", who(t, "keypair").c_str());
        x.label("generated by the tool");
    } else { cli::Key k = make(t.a, c["ks"]); pk = k.pk; sk = k.sk; }
    if (!t.fast && c["gen"] != 1) t.a.set_index(sk.data(), pick_index(p, c));
    std::string kf = d.put("key", cat(pk, sk)); int nsig = 0;
    for (int64_t o : c.lst("ops")) {
        bool self = (o >> 14) % 11 == 5; Buf m = self ? cat(pk, sk) : content(b, o >> 3); std::string mf = self ? kf : d.put("msg", m);   // now and then the key file itself is signed
        if (self) x.label("key file as message");
        uint64_t idx = t.a.index(sk.data()); Expect e = expect_sign(t.a, sk, m); bool sf = b.below(4) != 0 ? t.fast : t.fast;
        (void)sf;
        Result r = run(d, tool(t.kind, t.mt, "sign", t.fast), {kf, mf});
        Buf kb = slurp(kf); std::string w = who(t, "sign") + " index " + std::to_string(idx) + ", message of " + std::to_string(m.size()) + " bytes";
        if (r.hung || !r.exited) fail("%s: %s", w.c_str(), r.str().c_str());
        if (kb.size() != pk.size() + sk.size()) fail("%s: the key file has %zu bytes afterwards instead of %zu", w.c_str(), kb.size(), pk.size() + sk.size());
        if (memcmp(kb.data(), pk.data(), pk.size())) fail("%s: the public part of the key file changed", w.c_str());
        if (!self && slurp(mf) != m) fail("%s: the message file changed", w.c_str());
        if (e.r) { if (!r.code || !r.out.empty()) fail("%s: the key is used up, but the tool exits with %d and %zu bytes of output", w.c_str(), r.code, r.out.size()); Buf kept(kb.begin() + pk.size(), kb.end()); expect_wiped(t, sk, kept, w); sk = kept; x.label("refused"); continue; }
        if (r.code) fail("%s: exit status %d", w.c_str(), r.code);
        if (r.out.size() != p.sigb + m.size()) fail("%s: %zu bytes of output instead of %zu", w.c_str(), r.out.size(), (size_t)p.sigb + m.size());
        if (!m.empty() && memcmp(&r.out[p.sigb], m.data(), m.size())) fail("%s: the output does not end in the message", w.c_str());
        if (ref::to_int(r.out.data(), p.idxb) != idx) fail("%s: the signature carries index %llu", w.c_str(), (ull)ref::to_int(r.out.data(), p.idxb));
        Buf sk2(kb.begin() + pk.size(), kb.end());
        if (t.a.index(sk2.data()) != idx + 1) fail("%s: the key file holds index %llu afterwards", w.c_str(), (ull)t.a.index(sk2.data()));
        std::string df = diff(r.out, e.sm); if (!df.empty()) fail("%s: the output is not the signature the library makes: %s", w.c_str(), df.c_str());
        df = diff(sk2, e.sk); if (!df.empty()) fail("%s: the stored key is not the library's updated key: %s", w.c_str(), df.c_str());
        sk = sk2; nsig++; x.label(m.empty() ? "signed, empty file" : "signed");
        std::string sfile = d.put("sig", r.out), pf = d.put("pub", pk);
        bool other = b.below(4) == 0;
        expect_open(t, d, (o & 1) ? kf : pf, sfile, true, other ? !t.fast : t.fast, "signature made at index " + std::to_string(idx) + (o & 1 ? ", key pair file" : ", public key file"));
        x.label(o & 1 ? "accepted with the key pair file" : "accepted with the public key file");
        if (b.below(3) == 0) expect_open(t, d, (o & 1) ? pf : kf, sfile, true, t.fast, "signature made at index " + std::to_string(idx));
        // one alteration
        Buf s2 = r.out, p2 = (o & 2) ? pk : cat(pk, sk); std::string what;
        switch (o >> 3 & 7) {
        case 0: case 1: { size_t q = b.below(s2.size()); s2[q] ^= 1 << b.below(8); what = "bit flipped at " + std::to_string(q); break; }
        case 2: { size_t q = b.below(p.idxb + p.n); s2[q] ^= 1 << b.below(8); what = "bit flipped at " + std::to_string(q); break; }
        case 3: { Buf y = odd_bytes(b); s2 = cat(s2, y); what = std::to_string(y.size()) + " bytes appended (first " + std::to_string(y[0]) + ")"; break; }
        case 4: switch (b.below(6)) {
            case 0: { Buf y = odd_bytes(b); s2 = cat(y, s2); what = "bytes put in front"; break; }
            case 1: { Buf y = odd_bytes(b); s2.insert(s2.begin() + p.sigb, y.begin(), y.end()); what = "bytes put in front of the message"; if (s2 == r.out) { s2.push_back(1); } break; }
            case 2: s2 = cat(s2, s2); what = "file doubled"; break;
            case 3: s2.resize(s2.size() - 1); what = "last byte cut off"; break;
            default: s2.resize(s2.size() - 1 - b.below(std::min<size_t>(s2.size() - 1, m.empty() ? 50 : m.size()))); what = "bytes cut off"; } break;
        case 5: s2.resize(b.below(s2.size())); what = "cut to " + std::to_string(s2.size()) + " bytes"; break;
        case 6: { size_t q = 4 + b.below(p.n); p2[q] ^= 1 << b.below(8); what = "root in the key altered"; break; }
        default: { size_t q = 4 + p.n + b.below(p.n); p2[q] ^= 1 << b.below(8); what = "seed in the key altered"; }
        }
        expect_open(t, d, d.put("pub2", p2), d.put("sig2", s2), false, b.below(4) ? t.fast : !t.fast, what); x.label("alteration refused");
    }
    x.nontrivial = nsig > 0; x.sample = who(t, "*") + ", " + std::to_string(nsig) + " signatures";
}
static void names(const Case &c, Ctx &x) {
    Bytes b(c["cs"]); bool mt = c["mt"], fast = c["fast"]; std::string n; auto &S = ref::standard(); const ref::P &p = S[b.below(S.size())]; n = p.name;
    switch (c["kind"]) {
    case 0: n = ""; break;
    case 1: { size_t q = b.below(n.size()); n[q] = (char)(33 + b.below(90)); break; }
    case 2: n.erase(b.below(n.size()), 1 + b.below(4)); break;
    case 3: n += (char)(33 + b.below(90)); break;
    case 4: n.insert(b.below(n.size() + 1), 1, (char)(33 + b.below(90))); break;
    case 5: for (auto &ch : n) ch = (char)tolower(ch); break;
    case 6: n = std::to_string(p.oid); break;
    case 7: { n.clear(); size_t k = b.below(60); for (size_t i = 0; i < k; i++) n += (char)(1 + b.below(255)); break; }
    case 8: n = std::string(1 + b.below(5000), 'X'); break;
    default: break;
    }
    bool known = false; for (auto &s : S) if (s.mt == mt && s.name == n) known = true;
    if (known) { x.label("known"); return; }
    Dir d; Result r = run(d, tool("mock", mt, "keypair", fast), {n});
    if (r.hung || !r.exited || r.code == 0) fail("%s_keypair%s '%s': %s", mt ? "xmssmt" : "xmss", fast ? "_fast" : "", n.c_str(), r.str().c_str());
    if (!r.out.empty()) fail("%s_keypair%s '%s': %zu bytes of output for an unknown name", mt ? "xmssmt" : "xmss", fast ? "_fast" : "", n.c_str(), r.out.size());
    x.nontrivial = true; x.label("unknown name refused"); x.sample = n.substr(0, 60);
}
// messages of several megabytes
static void large(const Case &c, Ctx &x) {
    Tools t; if (!setup(c, x, t)) return;
    cli::Key k = make(t.a, c["ks"]); Dir d; size_t n = (size_t)c["mb"] * 1000003 + (size_t)c["d"]; Buf m = Bytes(c["cs"]).get(n); std::string kf = d.put("key", k.file()), mf = d.put("msg", m);
    Expect e = expect_sign(t.a, k.sk, m); Result r = run(d, tool(t.kind, t.mt, "sign", t.fast), {kf, mf});
    if (!r.ok() || r.out != e.sm) fail("%s: message of %zu bytes: %s, output %s", who(t, "sign").c_str(), n, r.str().c_str(), diff(r.out, e.sm).c_str());
    if (slurp(kf) != cat(k.pk, e.sk)) fail("%s: message of %zu bytes: wrong key stored", who(t, "sign").c_str(), n);
    std::string sf = d.put("sig", r.out); expect_open(t, d, kf, sf, true, t.fast, "large message");
    Buf s2 = r.out; s2[t.a.p.sigb + Bytes(c["cs"] + 1).below(n)] ^= 4; expect_open(t, d, kf, d.put("sig2", s2), false, t.fast, "large message altered");
    x.nontrivial = true; x.sample = who(t, "sign") + " " + std::to_string(n) + " bytes";
}
// message files of more than 4 GiB: sparse, with content of their own in some places
struct Sparse { std::vector<std::pair<uint64_t, Buf>> at; uint64_t n;
    Sparse(uint64_t n_, uint64_t s) : n(n_) { Bytes b(s); for (uint64_t q : {(uint64_t)0, n - 200, n / 2, ((uint64_t)1 << 31) - 90, ((uint64_t)1 << 32) - 90, b.below(n - 300), b.below(n - 300)}) if (q + 200 <= n) at.push_back({q, b.get(200)}); }
    std::string write(const Dir &d, const char *name, const Buf &front, int64_t flip = -1) const {
        std::string f = d.file(name); int o = open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); bool ok = o >= 0 && pwrite(o, front.data(), front.size(), 0) == (ssize_t)front.size() && !ftruncate(o, (off_t)(front.size() + n));
        for (auto &e : at) ok = ok && pwrite(o, e.second.data(), e.second.size(), (off_t)(front.size() + e.first)) == (ssize_t)e.second.size();
        u8 y; if (flip >= 0) { ok = ok && pread(o, &y, 1, flip) == 1; y ^= 4; ok = ok && pwrite(o, &y, 1, flip) == 1; }
        if (!ok) { fprintf(stderr, "cannot write %s\n", f.c_str()); exit(3); }
        close(o); return f;
    } };
static double available() { FILE *f = fopen("/proc/meminfo", "r"); char l[200]; double av = 0; while (f && fgets(l, sizeof l, f)) { long k; if (sscanf(l, "MemAvailable: %ld kB", &k) == 1) av = k / 1048576.0; } if (f) fclose(f); return av; }
static void huge(const Case &c, Ctx &x) {
    if (available() < 14) { x.skipped = true; x.label("not enough memory"); return; }
    Tools t; if (!setup(c, x, t)) return;
    cli::Key k = make(t.a, c["ks"]); Dir d; uint64_t n = ((uint64_t)1 << c["bits"]) + (uint64_t)c["v"] % 9000; Sparse S(n, c["cs"]); Bytes b(mix(c["cs"], 3)); std::string kf = d.put("key", k.file()), mf = S.write(d, "msg", {});
    Opt o; o.limit = 400; Buf front;
    { int fd = open(mf.c_str(), O_RDONLY); u8 *m = (u8 *)mmap(nullptr, n, PROT_READ, MAP_SHARED, fd, 0); close(fd); if (m == MAP_FAILED) { x.skipped = true; x.label("not enough memory"); return; }
      ref::Key model = model_of(t.a, k.sk.data()); model.compute_root(); front = model.sign(0, m, n);
      if (c["sign"]) {
          int pfd[2]; if (pipe(pfd)) exit(3); fcntl(pfd[1], F_SETPIPE_SZ, 1 << 20); fcntl(pfd[0], F_SETFD, FD_CLOEXEC); fcntl(pfd[1], F_SETFD, FD_CLOEXEC);
          // the reader compares what comes with signature and message, and sends the outcome
          int res[2]; if (pipe(res)) exit(3); pid_t rd = fork();
          if (!rd) { close(pfd[1]); Buf buf(1 << 20); uint64_t got = 0, bad = ~0ull; ssize_t r;
              while ((r = read(pfd[0], buf.data(), buf.size())) > 0) { for (uint64_t i = 0; i < (uint64_t)r && bad == ~0ull;) { uint64_t p = got + i, l; const u8 *w; if (p < front.size()) { w = &front[p]; l = front.size() - p; } else if (p < front.size() + n) { w = m + (p - front.size()); l = front.size() + n - p; } else { bad = p; break; }
                      l = std::min<uint64_t>(l, r - i); if (memcmp(&buf[i], w, l)) bad = p; i += l; } got += r; }
              uint64_t v[2] = {got, bad}; (void)!write(res[1], v, sizeof v); _exit(0); }
          close(pfd[0]); o.out = pfd[1]; Opt q = o; int keep = pfd[1];
          Result r; { q.child = [keep] { (void)keep; }; r = run(d, tool(t.kind, t.mt, "sign", t.fast), {kf, mf}, q); } close(pfd[1]);
          uint64_t v[2] = {0, 0}; bool have = read(res[0], v, sizeof v) == (ssize_t)sizeof v; close(res[0]); close(res[1]); waitpid(rd, nullptr, 0); if (!have) { fprintf(stderr, "no answer from the reader\n"); exit(3); }
          munmap(m, n); std::string w = who(t, "sign") + ": message of " + std::to_string(n) + " bytes: "; Buf kb = slurp(kf); Buf want = k.sk; t.a.set_index(want.data(), 1);
          if (r.exited && r.code && !v[0] && kb == k.file() && available() < 2) { x.skipped = true; x.label("not enough memory"); return; }
          if (!r.ok()) fail("%s%s", w.c_str(), r.str().c_str());
          if (v[1] != ~0ull) fail("%sthe output is not signature and message, from byte %llu on", w.c_str(), (ull)v[1]);
          if (v[0] != front.size() + n) fail("%s%llu bytes of output instead of %llu", w.c_str(), (ull)v[0], (ull)(front.size() + n));
          if (kb.size() != k.pk.size() + k.sk.size() || memcmp(kb.data(), k.pk.data(), k.pk.size()) || t.a.index(kb.data() + k.pk.size()) != 1) fail("%swrong key stored", w.c_str());
          x.label("signed");
      } else munmap(m, n); }
    if (!c["sign"]) {
        auto check = [&](const std::string &sf, bool good, const std::string &what) { Result r = run(d, tool(t.kind, t.mt, "open", t.fast), {kf, sf}, o);
            if (r.hung || !r.exited) fail("%s: %s: the tool %s", who(t, "open").c_str(), what.c_str(), r.str().c_str());
            if (good != (r.code == 0)) fail("%s: %s: exit status %d", who(t, "open").c_str(), what.c_str(), r.code); };
        std::string sz = "signed file with a message of " + std::to_string(n) + " bytes";
        check(S.write(d, "sig", front), true, sz); x.label("accepted");
        uint64_t q = c["alt"] == 0 ? n - 1 - b.below(5000) : b.below(n); check(S.write(d, "sig", front, (int64_t)(front.size() + q)), false, sz + ", message byte " + std::to_string(q) + " altered"); x.label("alteration refused");
        // a short signed file that is the beginning of a long one
        Buf m0 = b.get(b.below(500)); Expect e = expect_sign(t.a, k.sk, m0); Sparse none(((uint64_t)1 << c["bits"]), c["cs"]); check(none.write(d, "sig", e.sm), false, "valid signed file of " + std::to_string(e.sm.size()) + " bytes followed by 2^" + std::to_string(c["bits"]) + " further bytes"); x.label("longer file refused");
    }
    x.nontrivial = true; x.sample = who(t, c["sign"] ? "sign" : "open") + " " + std::to_string(n) + " bytes";
}
// many alterations of one signed file: none of them passes, whatever the verification returns inside
static void refusals(const Case &c, Ctx &x) {
    Tools t; if (!setup(c, x, t)) return;
    cli::Key k = make(t.a, c["ks"]); Bytes b(c["cs"]); Dir d; Expect e = expect_sign(t.a, k.sk, b.get(b.below(60))); if (e.r) fail("%s: the library refuses to sign with a new key", who(t, "sign").c_str());
    std::string pf = d.put("pub", k.pk); expect_open(t, d, pf, d.put("sig", e.sm), true, t.fast, "signature made by the library");
    for (int64_t i = 0; i < c["cnt"]; i++) { Buf s = e.sm; size_t q = b.below(s.size()); u8 v = (u8)(1 + b.below(255)); s[q] ^= v; expect_open(t, d, pf, d.put("sig", s), false, t.fast, "byte " + std::to_string(q) + " changed by " + std::to_string(v)); }
    x.label("alteration refused", c["cnt"]); x.nontrivial = c["cnt"] > 0; x.sample = who(t, "open") + ", " + std::to_string(c["cnt"]) + " alterations";
}
// keys of any set that are used up: at the first index beyond the end or later (at the last one where it fills the index bytes)
static void used_up(const Case &c, Ctx &x) {
    Tools t; if (!setup(c, x, t)) return;
    const ref::P &p = t.a.p; Bytes b(c["cs"]); Buf pk = b.get(t.a.pk), sk = b.get(t.a.sk); ref::to_bytes(&sk[0], 4, p.oid); memcpy(&pk[0], &sk[0], 4);
    bool full = 8 * p.idxb == p.h; uint64_t idx = (1ULL << p.h) - full; if (!full) { uint64_t room = (p.idxb == 8 ? ~0ULL : (1ULL << 8 * p.idxb) - 1) - idx; idx += (uint64_t)c["v"] % 3 == 0 ? 0 : (uint64_t)c["v"] % 3 == 1 ? room : b.below(room); }
    t.a.set_index(sk.data(), idx); Dir d; Buf m = content(b, c["m"]); std::string kf = d.put("key", cat(pk, sk)), mf = d.put("msg", m); Buf now = sk;
    for (int64_t i = 0; i < c["cnt"]; i++) {
        Result r = run(d, tool(t.kind, t.mt, "sign", t.fast), {kf, mf}); Buf kb = slurp(kf); std::string w = who(t, "sign") + " index " + std::to_string(idx) + ", run " + std::to_string(i + 1);
        if (r.hung || !r.exited) fail("%s: %s", w.c_str(), r.str().c_str());
        if (!r.code || !r.out.empty()) fail("%s: the key is used up, but the tool exits with %d and %zu bytes of output", w.c_str(), r.code, r.out.size());
        if (kb.size() != pk.size() + sk.size() || memcmp(kb.data(), pk.data(), pk.size())) fail("%s: more than the secret key in the file changed", w.c_str());
        Buf kept(kb.begin() + pk.size(), kb.end()); expect_wiped(t, sk, kept, w);
        if (slurp(mf) != m) fail("%s: the message file changed", w.c_str());
    }
    x.label("refused", c["cnt"]); x.nontrivial = true; x.sample = who(t, "sign") + " index " + std::to_string(idx);
}
void eng::worker_init() { model_ready(); }
std::vector<Stage> eng::stages() {
    bool T = opt.thorough; std::vector<Stage> v;
    auto with = [](std::vector<Fixed> f, const char *k, std::vector<int> xs) { std::vector<Fixed> o; for (auto e : f) for (int q : xs) { e[k] = q; o.push_back(e); } return o; };
    auto small = [](const ref::P &p) { return p.th <= 10; };
    std::vector<Field> hf = cat(index_fields(), {num("ks", 0, 1 << 20), seed("cs"), list("ops", 5, {{1, 0, (1LL << 40) - 1}})});
    v.push_back({"real", hf, with(with(with(pick([&](const ref::P &p) { return p.th == 5 && (T || p.n == 32 || p.d == 4); }), "fast", {0, 1}), "mock", {0}), "gen", {1}), T ? 2 : 1, 1, history}); v.back().max_shrinks = 10;
    v.back().rule = "the tools as built by the Makefile (XMSSMT with subtrees of 2^5): key generation, signatures, verification, alterations";
    v.push_back({"real-xmss", hf, with(with(with(pick([&](const ref::P &p) { return !p.mt && p.h == 10 && (T || p.func == 0); }), "fast", {1}), "mock", {0}), "gen", {1}), T ? 2 : 1, 1, history}); v.back().max_shrinks = 10;
    v.back().rule = "the same for XMSS with height 10, fast signer";
    std::vector<Field> hg = cat(hf, {num("gen", {{1, 1, 1}, {2, 0, 0}})});
    for (auto &f : hg) if (f.name == "ks") f = num("ks", {{3, 0, 3}, {1, 0, 1 << 20}});
    v.push_back({"mock", hg, with(with(pick(small), "fast", {0, 1}), "mock", {1}), T ? 40 : 5, 5, history}); v.back().max_shrinks = 60;
    v.back().rule = "all sets with th <= 10 with cheap one-time functions linked into the tools: generated or placed keys, up to 5 signatures each with verification (either build, key pair or public key file) and an alteration; non-trivial: at least one signature";
    v.push_back({"names", {seed("cs"), num("kind", 0, 9), num("mt", 0, 1), num("fast", 0, 1)}, {}, T ? 6000 : 400, 20, names}); v.back().max_shrinks = 60;
    v.back().rule = "edited, foreign and arbitrary parameter-set names for the key generation tools; non-trivial: not a name of that family";
    v.push_back({"refusals", {num("ks", 0, 3), seed("cs"), num("cnt", {{1, 0, 2}, {4, 20, 40}})}, with(with(pick(small), "fast", {0, 1}), "mock", {1}), T ? 30 : 1, T ? 10 : 1, refusals}); v.back().max_shrinks = 60;
    v.back().rule = "many alterations of one signed file for the verification tools; non-trivial: at least one";
    v.push_back({"used-up", {seed("cs"), num("v", 0, 5), num("m", 0, 100000), num("cnt", 1, 3)}, with(with(pick([](const ref::P &) { return true; }), "fast", {0, 1}), "mock", {0}), T ? 40 : 3, T ? 20 : 3, used_up}); v.back().max_shrinks = 60;
    v.back().rule = "key files of all sets whose index says that the key is used up: refused, and the secret seeds are gone from the file";
    v.push_back({"large", {num("ks", 0, 3), seed("cs"), num("mb", 1, T ? 40 : 6), num("d", -3, 3)}, with(with(pick([&](const ref::P &p) { return p.th == 5 && p.n == 32 && p.d == 4; }), "fast", {0, 1}), "mock", {1}), T ? 6 : 1, 1, large}); v.back().max_shrinks = 10; v.back().workers = 4;
    v.back().rule = "message files of several megabytes";
    v.push_back({"huge", {num("ks", 0, 3), seed("cs"), num("v", 0, 1 << 30), num("alt", 0, 1)}, with(with(with(with(pick([&](const ref::P &p) { return p.mt && p.name == "XMSSMT-SHA2_20/4_192"; }), "fast", T ? std::vector<int>{0, 1} : std::vector<int>{1}), "mock", {0}), "sign", {1, 0}), "bits", T ? std::vector<int>{31, 32} : std::vector<int>{32}), 1, 1, huge}); v.back().max_shrinks = 1; v.back().workers = 1; v.back().hang_s = 600;
    v.back().rule = "message and signed files of more than 4 (2) GiB through the tools: output compared as it comes, alterations, a signed file followed by a multiple of 2^32 bytes; non-trivial: every one";
    return v;
}
