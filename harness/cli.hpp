// Running the command-line tools in a scratch folder.
#pragma once
#include "shapes.hpp"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace cli {
using lib::Buf; using lib::u8; using lib::ull; using lib::Api; using lib::Lib;
inline std::string tool(const std::string &kind, bool mt, const char *name, bool fast) {
    std::string n = "bin_" + (kind.empty() ? "" : kind + "_") + (mt ? "xmssmt_" : "xmss_") + name + (fast ? "_fast" : "");
    auto it = eng::opt.args.find(n); if (it == eng::opt.args.end()) { fprintf(stderr, "no %s\n", n.c_str()); exit(3); }
    return it->second;
}
struct Dir {                                   // removed with everything in it
    std::string path;
    Dir() { std::string t = (eng::opt.work.empty() ? std::string("/tmp") : eng::opt.work) + "/d.XXXXXX"; if (!mkdtemp(&t[0])) { fprintf(stderr, "mkdtemp failed\n"); exit(3); } path = t; }
    ~Dir() { (void)!system(("rm -rf '" + path + "'").c_str()); }
    Dir(const Dir &) = delete;
    std::string file(const char *n) const { return path + "/" + n; }
    std::string put(const char *n, const Buf &b) const {
        std::string f = file(n); FILE *o = fopen(f.c_str(), "wb"); if (!o || fwrite(b.data(), 1, b.size(), o) != b.size() || fclose(o)) { fprintf(stderr, "cannot write %s\n", f.c_str()); exit(3); }
        return f;
    }
};
inline Buf slurp(const std::string &f) {
    Buf b; FILE *i = fopen(f.c_str(), "rb"); if (!i) return b;
    u8 buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, i)) > 0) b.insert(b.end(), buf, buf + n);
    fclose(i); return b;
}
struct Result { int status = 0; bool exited = false; int code = -1; int sig = 0; bool hung = false; Buf out; std::string err;
    bool ok() const { return exited && code == 0; }
    bool asan() const { return err.find("ERROR: AddressSanitizer") != std::string::npos || err.find("runtime error") != std::string::npos; }
    std::string str() const { return hung ? "does not end" : exited ? "exits with " + std::to_string(code) : "is killed by signal " + std::to_string(sig); } };
struct Opt { uint64_t rng = 0; int out = -1; std::function<void()> child; double limit = 120; };   // out: descriptor to use as standard output
// Starts the tool in the folder; standard output to a file unless given.
inline Result run(const Dir &d, const std::string &bin, const std::vector<std::string> &args, const Opt &o = {}) {
    std::string of = d.file(".out"), ef = d.file(".err"); Result r;
    pid_t p = fork();
    if (!p) {
        int i = open("/dev/null", O_RDONLY), e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), u = o.out >= 0 ? o.out : open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(i, 0); dup2(u, 1); dup2(e, 2); for (int f = 3; f < 64; f++) close(f);
        setsid(); signal(SIGPIPE, SIG_DFL); rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z);
        if (chdir(d.path.c_str())) _exit(97);
        setenv("VERIF_RNG", std::to_string(o.rng).c_str(), 1); setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:symbolize=0", 1);
        if (o.child) o.child();
        std::vector<char *> av; av.push_back((char *)bin.c_str()); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
        execv(bin.c_str(), av.data()); _exit(97);
    }
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0); useconds_t nap = 200;
    for (;;) {
        pid_t q = waitpid(p, &r.status, WNOHANG); if (q == p) break;
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        if (t.tv_sec - t0.tv_sec > o.limit) { kill(p, SIGKILL); waitpid(p, &r.status, 0); r.hung = true; break; }
        usleep(nap); if (nap < 5000) nap += nap / 4;
    }
    r.exited = WIFEXITED(r.status); r.code = r.exited ? WEXITSTATUS(r.status) : -1; r.sig = WIFSIGNALED(r.status) ? WTERMSIG(r.status) : 0;
    if (o.out < 0) r.out = slurp(of);
    Buf e = slurp(ef); r.err.assign(e.begin(), e.end());
    if (r.exited && r.code == 97) { fprintf(stderr, "cannot start %s\n", bin.c_str()); exit(3); }
    return r;
}
// A key pair file (public key, then secret key) for the given set: made in process.
struct Key { Buf pk, sk; Buf file() const { Buf f = pk; f.insert(f.end(), sk.begin(), sk.end()); return f; } };
inline Key make(const Api &a, uint64_t seed) {
    static std::map<std::string, Key> cache; char id[256]; snprintf(id, sizeof id, "%s/%s/%llu", a.L->name.c_str(), lib::pname(a.p), (ull)seed);
    auto it = cache.find(id); if (it != cache.end()) return it->second;
    if (cache.size() > 40) cache.clear();
    auto k = lib::make_key(a, seed); return cache[id] = Key{k.pk, k.sk};
}
// The same operation in process: signature and updated key.
struct Expect { int r; Buf sm, sk; };
inline Expect expect_sign(const Api &a, const Buf &sk, const Buf &m) {
    Expect e; e.sk = sk; e.sm.assign(a.sig + m.size(), 0); ull n = 0;
    e.r = a.sign(e.sk.data(), e.sm.data(), &n, m.data(), m.size());
    if (!e.r) e.sm.resize(n); else e.sm.clear();
    return e;
}
inline Buf cat(const Buf &a, const Buf &b) { Buf c = a; c.insert(c.end(), b.begin(), b.end()); return c; }
inline std::string diff(const Buf &a, const Buf &b) {
    if (a.size() != b.size()) return std::to_string(a.size()) + " bytes instead of " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return "byte " + std::to_string(i) + " differs";
    return "";
}
} // namespace cli
