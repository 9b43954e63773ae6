#include "engine.hpp"
#include <rapidcheck.h>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace eng {
Options opt;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void fail(const char *fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Fail{buf};
}
Field num(const std::string &name, int64_t lo, int64_t hi) { return Field{name, {{1, lo, hi}}, -1}; }
Field num(const std::string &name, std::vector<Range> r) { return Field{name, std::move(r), -1}; }
Field list(const std::string &name, int maxlen, std::vector<Range> r) { return Field{name, std::move(r), maxlen}; }
Field seed(const std::string &name) { return num(name, 0, (1LL << 48) - 1); }

void Bytes::fill(void *p, size_t n) {
    uint8_t *b = (uint8_t *)p;
    while (n >= 8) { uint64_t x = next(); memcpy(b, &x, 8); b += 8; n -= 8; }
    if (n) { uint64_t x = next(); memcpy(b, &x, n); }
}
uint64_t mix(uint64_t a, uint64_t b) { Bytes x(a ^ (b * 0xD6E8FEB86659FD93ULL)); x.next(); return x.next(); }
std::string hex(const void *p, size_t n, size_t max) {
    std::string s; char t[3];
    for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 3, "%02x", ((const uint8_t *)p)[i]); s += t; }
    if (n > max) s += "..";
    return s;
}

int64_t Case::operator[](const std::string &k) const {
    auto it = v.find(k);
    if (it == v.end() || it->second.empty()) { fprintf(stderr, "case has no field %s\n", k.c_str()); abort(); }
    return it->second[0];
}
const std::vector<int64_t> &Case::lst(const std::string &k) const {
    auto it = v.find(k);
    if (it == v.end()) { fprintf(stderr, "case has no field %s\n", k.c_str()); abort(); }
    return it->second;
}
std::string Case::str() const {
    std::string s;
    for (auto &e : v) {
        if (!s.empty()) s += ' ';
        s += e.first + '=';
        for (size_t i = 0; i < e.second.size(); i++) { if (i) s += ','; s += std::to_string(e.second[i]); }
        if (e.second.empty()) s += '-';
    }
    return s;
}
Case Case::parse(const std::string &s) {
    Case c; std::istringstream is(s); std::string w;
    while (is >> w) {
        auto p = w.find('=');
        if (p == std::string::npos) continue;
        std::vector<int64_t> l;
        std::string r = w.substr(p + 1);
        if (r != "-") { std::istringstream rs(r); std::string x; while (std::getline(rs, x, ',')) l.push_back(std::stoll(x)); }
        c.v[w.substr(0, p)] = l;
    }
    return c;
}

using Vals = std::vector<std::vector<int64_t>>;

static rc::Gen<int64_t> scalar(const std::vector<Range> &ranges) {
    std::vector<std::pair<std::size_t, rc::Gen<int64_t>>> gs;
    for (auto &r : ranges)
        gs.emplace_back((std::size_t)r.weight,
                        r.lo == r.hi ? rc::gen::just<int64_t>((int64_t)r.lo)
                                     : rc::gen::resize(rc::kNominalSize, rc::gen::inRange<int64_t>(r.lo, r.hi + 1)));
    if (gs.size() == 1) return gs[0].second;
    // weighted choice by construction: index over the cumulated weights
    int total = 0; for (auto &r : ranges) total += r.weight;
    auto idx = rc::gen::resize(rc::kNominalSize, rc::gen::inRange<int>(0, total));
    return rc::gen::mapcat(rc::gen::noShrink(idx), [=](int k) {
        for (auto &g : gs) { if (k < (int)g.first) return g.second; k -= (int)g.first; }
        return gs.back().second;
    });
}
static rc::Gen<std::vector<int64_t>> field_gen(const Field &f) {
    if (f.maxlen < 0) return rc::gen::map(scalar(f.ranges), [](int64_t x) { return std::vector<int64_t>{x}; });
    auto e = scalar(f.ranges);
    return rc::gen::resize(f.maxlen, rc::gen::container<std::vector<int64_t>>(e));
}
static rc::Gen<Vals> build_gen(const std::vector<Field> &fs) {
    rc::Gen<Vals> g = rc::gen::just(Vals{});
    for (auto &f : fs)
        g = rc::gen::map(rc::gen::pair(g, field_gen(f)), [](std::pair<Vals, std::vector<int64_t>> p) {
            p.first.push_back(std::move(p.second)); return p.first; });
    return g;
}
static Case to_case(const Stage &st, const Fixed &fx, const Vals &vals, const std::vector<Field> &fs) {
    Case c;
    for (size_t i = 0; i < fs.size(); i++) c.v[fs[i].name] = vals[i];
    for (auto &e : fx) c.v[e.first] = {e.second};
    (void)st;
    return c;
}

// ---------------------------------------------------------------- shared state of the workers
struct Slot { std::atomic<int> busy; double start; int stage; char text[16384]; };
struct Shared {
    std::atomic<uint64_t> next[64];
    std::atomic<int> stop;
    Slot slot[64];
};
static Shared *sh;

struct Stats {
    uint64_t evals = 0, nontrivial = 0, skipped = 0, shrink_runs = 0; double cpu = 0, longest = 0;
    std::set<uint64_t> distinct;      // hashes of non-trivial cases
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

static uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ULL; return h; }

static void set_current(int w, int stage, const std::string &text) {
    Slot &s = sh->slot[w];
    size_t n = std::min(text.size(), sizeof(s.text) - 1);
    memcpy(s.text, text.data(), n); s.text[n] = 0;
    s.stage = stage; s.start = now(); s.busy = 1;
}

static int ran_fd = -1;      // everything this worker has run: a failure may depend on what ran before in the same process
static bool run_one(int w, int si, const Stage &st, const Case &c, Ctx &ctx, std::string &why) {
    std::string text = c.str(); set_current(w, si, text);
    if (ran_fd >= 0) { std::string l = st.name + "\t" + text + "\n"; if (write(ran_fd, l.data(), l.size()) < 0) {} }
    bool ok = true;
    try { st.body(c, ctx); }
    catch (const Fail &f) { ok = false; why = f.why; }
    sh->slot[w].busy = 0;
    return ok;
}

static void write_failure(const std::string &path, const Stage &st, const Case &c, const std::string &why, const char *kind) {
    std::string tmp = path + ".tmp";
    { std::ofstream f(tmp); f << "check=" << opt.id << "\nstage=" << st.name << "\nkind=" << kind << "\ncase=" << c.str() << "\nwhy=" << why << "\n"; }
    rename(tmp.c_str(), path.c_str());
}

static void worker(int w, std::vector<Stage> &sts) {
    signal(SIGPIPE, SIG_IGN);
    ran_fd = open((opt.work + "/ran." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    worker_init();
    std::vector<Stats> stats(sts.size());
    bool failed = false;
    for (size_t si = 0; si < sts.size() && !failed; si++) {
        Stage &st = sts[si];
        if (st.workers && w >= st.workers) continue;
        std::vector<Fixed> strata = st.strata.empty() ? std::vector<Fixed>{{}} : st.strata;
        int chunk = st.chunk > 0 ? st.chunk : st.cases;
        if (chunk < 1) chunk = 1;
        uint64_t per = (st.cases + chunk - 1) / chunk, units = per * strata.size();
        for (;;) {
            if (sh->stop) break;
            uint64_t u = sh->next[si]++;
            if (u >= units) break;
            const Fixed &fx = strata[u % strata.size()];
            uint64_t ch = u / strata.size();
            int n = std::min<int64_t>(chunk, st.cases - (int64_t)ch * chunk);
            std::vector<Field> fs;
            for (auto &f : st.fields) if (!fx.count(f.name)) fs.push_back(f);
            rc::Gen<Vals> gen = build_gen(fs);
            rc::Random rnd(mix(mix(opt.seed, hash_str(st.name)), u));
            for (int i = 0; i < n && !sh->stop; i++) {
                rc::Random r = rnd.split();
                auto shr = gen(r, rc::kNominalSize);
                Case c = to_case(st, fx, shr.value(), fs);
                Ctx ctx; std::string why;
                double c0 = now();
                bool ok = run_one(w, si, st, c, ctx, why);
                Stats &s = stats[si];
                double dt = now() - c0; s.cpu += dt; if (dt > s.longest) s.longest = dt;
                s.evals++;
                if (ctx.skipped) s.skipped++;
                for (auto &l : ctx.labels) s.labels[l.first] += l.second;
                if (ctx.nontrivial) {
                    s.nontrivial++;
                    s.distinct.insert(hash_str(c.str()));
                    if (s.samples.size() < 3 && s.nontrivial % 7 == 1) s.samples.push_back(c.str() + (ctx.sample.empty() ? "" : "  -> " + ctx.sample));
                }
                if (ok) continue;
                // minimise
                std::string path = opt.work + "/fail." + std::to_string(w);
                write_failure(path, st, c, why, "case");
                if (ran_fd >= 0) { close(ran_fd); ran_fd = -1; }      // ends with the case that fails first
                int tries = 0; double t0 = now(); bool progress = true;
                while (progress && !getenv("VERIF_NOSHRINK") && tries < st.max_shrinks && now() - t0 < st.max_shrink_s) {
                    progress = false;
                    auto seq = shr.shrinks();
                    for (;;) {
                        auto m = seq.next();
                        if (!m || ++tries > st.max_shrinks || now() - t0 > st.max_shrink_s) break;
                        Case c2 = to_case(st, fx, m->value(), fs);
                        Ctx x; std::string why2;
                        s.shrink_runs++;
                        if (!run_one(w, si, st, c2, x, why2)) {
                            shr = *m; write_failure(path, st, c2, why2, "case");
                            progress = true; break;
                        }
                    }
                }
                sh->stop = 1; failed = true;
                break;
            }
            if (failed) break;
        }
    }
    std::ofstream f(opt.work + "/stats." + std::to_string(w));
    for (size_t si = 0; si < sts.size(); si++) {
        Stats &s = stats[si];
        f << "stage " << sts[si].name << "\n" << "n " << s.evals << " " << s.nontrivial << " " << s.skipped << " " << s.shrink_runs << "\n";
        f << "t " << s.cpu << " " << s.longest << "\n";
        for (auto &l : s.labels) f << "l " << l.second << " " << l.first << "\n";
        for (auto &x : s.samples) f << "s " << x << "\n";
        for (auto h : s.distinct) f << "h " << h << "\n";
    }
    f.close();
    fflush(stdout);
    _exit(failed ? 1 : 0);
}

// A case that ended its worker cannot be minimised there: candidates run in child processes of their own.
static bool dies(const Stage &st, const Case &c, double limit) {
    pid_t p = fork();
    if (!p) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); setsid();
        worker_init(); Ctx x;
        try { st.body(c, x); } catch (const Fail &) { _exit(1); }
        _exit(0);
    }
    double t0 = now(); int stt;
    for (;;) {
        if (waitpid(p, &stt, WNOHANG) == p) return !(WIFEXITED(stt) && (WEXITSTATUS(stt) == 0 || WEXITSTATUS(stt) == 3));
        if (now() - t0 > limit) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &stt, 0); return false; }
        usleep(500);
    }
}
static bool in_ranges(const Field &f, int64_t v) { for (auto &r : f.ranges) if (v >= r.lo && v <= r.hi) return true; return false; }
static void shrink_crash(const std::string &path, const Stage &st, Case c, const char *why) {
    double t0 = now(), once; int tries = 0;
    if (!dies(st, c, 60)) return;                     // depends on what ran before
    once = std::max(2.0, 4 * (now() - t0)); t0 = now();
    auto attempt = [&](const Case &d) {
        if (++tries > st.max_shrinks || now() - t0 > st.max_shrink_s) return false;
        if (!dies(st, d, once)) return false;
        c = d; write_failure(path, st, c, why, "crash"); return true;
    };
    for (bool progress = !getenv("VERIF_NOSHRINK"); progress && tries < st.max_shrinks && now() - t0 < st.max_shrink_s;) {
        progress = false;
        for (auto &f : st.fields) {
            auto it = c.v.find(f.name); if (it == c.v.end()) continue;
            if (f.maxlen >= 0) for (size_t n = it->second.size(); n >= 1; n /= 2)
                for (size_t o = 0; o + n <= c.v[f.name].size();) { Case d = c; auto &l = d.v[f.name]; l.erase(l.begin() + o, l.begin() + o + n); if (attempt(d)) progress = true; else o += n; }
            for (size_t i = 0; i < c.v[f.name].size(); i++) {
                int64_t v = c.v[f.name][i];
                std::vector<int64_t> cand; for (auto &r : f.ranges) if (r.lo < v) cand.push_back(r.lo);
                for (int64_t s = v / 2; s > 0; s /= 2) cand.push_back(v - s);
                for (int64_t k : cand) { if (k == v || std::abs(k) > std::abs(v) || !in_ranges(f, k)) continue; Case d = c; d.v[f.name][i] = k; if (attempt(d)) { progress = true; break; } }
            }
        }
    }
}
static int replay(const std::string &file, std::vector<Stage> &sts) {
    std::ifstream f(file); std::string line, stage, cs; std::vector<std::pair<std::string, std::string>> before;
    while (std::getline(f, line)) {
        if (line.rfind("before=", 0) == 0) { auto t = line.find('\t'); if (t != std::string::npos) before.push_back({line.substr(7, t - 7), line.substr(t + 1)}); }
        if (line.rfind("stage=", 0) == 0) stage = line.substr(6);
        if (line.rfind("case=", 0) == 0) cs = line.substr(5);
    }
    for (auto &st : sts) if (st.name == stage) {
        Case c = Case::parse(cs); Ctx ctx; ctx.replaying = true;
        worker_init();
        for (auto &b : before) for (auto &t : sts) if (t.name == b.first) { Ctx y; try { t.body(Case::parse(b.second), y); } catch (const Fail &) {} }
        try { st.body(c, ctx); }
        catch (const Fail &x) { printf("REPLAY-FAIL %s\n", x.why.c_str()); fflush(stdout); _exit(1); }
        printf("REPLAY-OK%s\n", ctx.skipped ? " (skipped)" : ""); fflush(stdout); _exit(0);
    }
    fprintf(stderr, "unknown stage %s\n", stage.c_str());
    return 2;
}

static int run_main(int argc, char **argv) {
    int workers = 8; double budget = 600; std::string rep, only;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto p = a.find('=');
        std::string k = a.substr(0, p), val = p == std::string::npos ? "" : a.substr(p + 1);
        if (k == "--id") opt.id = val;
        else if (k == "--tier") opt.tier = val;
        else if (k == "--seed") opt.seed = std::stoull(val);
        else if (k == "--work") opt.work = val;
        else if (k == "--workers") workers = std::stoi(val);
        else if (k == "--budget") budget = std::stod(val);
        else if (k == "--replay") rep = val;
        else if (k == "--stage") only = val;
        else if (k.rfind("--", 0) == 0) opt.args[k.substr(2)] = val;
    }
    opt.thorough = opt.tier == "thorough";
    auto sts = stages();
    if (opt.thorough) for (auto &s : sts) s.hang_s *= 4;
    if (!rep.empty()) return replay(rep, sts);
    if (!only.empty()) { std::vector<Stage> t; for (auto &s : sts) if (s.name == only) t.push_back(s); sts = t; }
    if (sts.size() > 64 || workers > 64) abort();
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { std::ofstream f(opt.work + "/rules"); for (auto &s : sts) f << s.name << "\t" << s.rule << "\n"; }
    std::vector<pid_t> pids(workers);
    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p == 0) { worker(w, sts); _exit(0); }
        pids[w] = p;
    }
    double t0 = now(); int left = workers; bool bad = false; bool soft = false;
    while (left > 0) {
        int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
        if (p > 0) {
            left--;
            int w = -1; for (int i = 0; i < workers; i++) if (pids[i] == p) { w = i; pids[i] = 0; }
            if (w < 0) continue;
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) continue;
            if (WIFEXITED(stt) && WEXITSTATUS(stt) == 1 && access((opt.work + "/fail." + std::to_string(w)).c_str(), R_OK) == 0) { bad = true; sh->stop = 1; continue; }
            // died: sanitizer report or signal, in the case recorded in its slot
            bool already = access((opt.work + "/fail." + std::to_string(w)).c_str(), R_OK) == 0;
            Slot &s = sh->slot[w];
            char b[128];
            if (WIFSIGNALED(stt)) snprintf(b, sizeof b, "worker killed by signal %d", WTERMSIG(stt));
            else snprintf(b, sizeof b, "worker exited with status %d", WEXITSTATUS(stt));
            if (!already && s.busy && !bad) {
                std::string path = opt.work + "/fail." + std::to_string(w); Case c = Case::parse(s.text);
                write_failure(path, sts[s.stage], c, b, "crash");
                sh->stop = 1;
                {
                    const Stage &st = sts[s.stage]; Stage free_fields = st; free_fields.fields.clear();
                    for (auto &f : st.fields) { bool fixed = false; for (auto &fx : st.strata) fixed |= fx.count(f.name) != 0; if (!fixed) free_fields.fields.push_back(f); }
                    shrink_crash(path, free_fields, c, b);
                }
            }
            else if (!already && !bad) { std::ofstream f(opt.work + "/broken"); f << b << " outside a case\n"; }
            bad = true; sh->stop = 1;
            continue;
        }
        usleep(20000);
        if (!soft && now() - t0 > budget) { soft = true; sh->stop = 1; std::ofstream f(opt.work + "/budget"); f << "time budget of " << budget << " s reached\n"; }
        for (int w = 0; w < workers; w++) if (pids[w]) {
            Slot &s = sh->slot[w];
            if (s.busy && now() - s.start > sts[s.stage].hang_s) {
                write_failure(opt.work + "/fail." + std::to_string(w), sts[s.stage], Case::parse(s.text), "case did not end", "hang");
                kill(pids[w], SIGKILL);
                s.busy = 0;
            }
        }
    }
    return bad ? 1 : 0;
}
} // namespace eng

int main(int argc, char **argv) { return eng::run_main(argc, argv); }
