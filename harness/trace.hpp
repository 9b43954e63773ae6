// Runs a tool as a traced child: kills it before a chosen system call, or makes a chosen write fail, be short, or be
// short and followed by a kill. With a key file named, only what happens after it is opened counts; otherwise everything.
#pragma once
#include "cli.hpp"
#include <sys/ptrace.h>
#include <sys/uio.h>
#include <sys/user.h>
namespace cli {
// in: number of the call that reads, measures, opens or gets memory, to which IN_* happens (once or from there on for calls of that kind)
struct Plan { int kill_at = -1; int wr = -1; int act = 0; int in = -1; int iact = 0; bool keep = false; std::string bad; int64_t bad_from = -1; };   // bad: file that cannot be read from bad_from on
enum { IN_EIO, IN_EINTR, IN_EOF, IN_SHORT, IN_NOMEM, IN_NUM };
enum { ERR_FOREVER, ERR_ONCE, SHORT_GO_ON, SHORT_THEN_ERR, SHORT_THEN_KILL, KILL_AFTER };
struct Traced { bool started = false, killed = false, exited = false, hung = false; int code = -1, sig = 0; int calls = 0, writes = 0, ins = 0; bool hit = false; char cls = ' '; std::string at; };

inline std::string peek(pid_t p, uint64_t addr) {
    char b[512]; iovec l{b, sizeof b - 1}, r{(void *)addr, sizeof b - 1}; ssize_t n = process_vm_readv(p, &l, 1, &r, 1, 0);
    if (n < 0) { std::string s; for (int i = 0; i < 64; i++) { errno = 0; long w = ptrace(PTRACE_PEEKDATA, p, (void *)(addr + 8 * i), 0); if (errno) break; s.append((char *)&w, 8); if (memchr(&w, 0, 8)) break; } return std::string(s.c_str()); }
    b[n] = 0; return b;
}
inline std::string fdpath(pid_t p, int fd) { char l[64], b[512]; snprintf(l, sizeof l, "/proc/%d/fd/%d", p, fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return ""; b[n] = 0; return b; }
inline const char *callname(long n) { switch (n) { case 0: return "read"; case 1: return "write"; case 2: return "open"; case 3: return "close"; case 5: return "fstat"; case 8: return "lseek"; case 9: return "mmap"; case 11: return "munmap"; case 12: return "brk"; case 18: return "pwrite"; case 20: return "writev"; case 74: return "fsync"; case 82: return "rename"; case 231: return "exit_group"; case 257: return "openat"; case 262: return "newfstatat"; default: return "call"; } }

inline int64_t filepos(pid_t p, int fd) { char l[64], b[256]; snprintf(l, sizeof l, "/proc/%d/fdinfo/%d", p, fd); int f = open(l, O_RDONLY); if (f < 0) return 0; ssize_t n = read(f, b, sizeof b - 1); close(f); if (n <= 0) return 0; b[n] = 0; const char *q = strstr(b, "pos:"); return q ? atoll(q + 4) : 0; }
inline int incls(long n) { switch (n) { case 0: case 17: case 19: case 295: return 'r'; case 8: return 's'; case 4: case 5: case 6: case 262: case 332: return 't'; case 9: case 25: return 'm'; case 12: return 'b'; case 2: case 257: case 437: return 'o'; case 72: case 73: return 'l'; default: return 0; } }

// out: descriptor for standard output; the key file is d/key
inline Traced trace(const Dir &d, const std::string &bin, const std::vector<std::string> &args, int out, const Plan &pl, double limit = 100, bool from_start = false) {
    Traced t; std::string key = d.file("key"), outpath = fdpath(getpid(), out);
    pid_t p = fork();
    if (!p) {
        int i = open("/dev/null", O_RDONLY), e = open(d.file(".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(i, 0); dup2(out, 1); dup2(e, 2); for (int f = 3; f < 64; f++) close(f);
        signal(SIGPIPE, SIG_DFL); rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z); if (chdir(d.path.c_str())) _exit(97);
        setenv("VERIF_RNG", "1", 1);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(96);
        raise(SIGSTOP);
        std::vector<char *> av; av.push_back((char *)bin.c_str()); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
        execv(bin.c_str(), av.data()); _exit(97);
    }
    int st; timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) return t;                      // tracing not possible here
    if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL)) { kill(p, SIGKILL); waitpid(p, &st, 0); return t; }
    t.started = true;
    bool entry = true, armed = from_start, fail_now = false, kill_next = false; long ret_override = 0; bool override_ret = false; int in_cls = 0; bool foreign = false; uint64_t restore = 0; bool do_restore = false, kill_exit = false; char bad_cls = ' '; int err = ENOSPC; int deliver = 0;
    for (;;) {
        ptrace(PTRACE_SYSCALL, p, 0, deliver); deliver = 0;
        pid_t w; useconds_t nap = 0;
        while ((w = waitpid(p, &st, WNOHANG)) == 0) { timespec n; clock_gettime(CLOCK_MONOTONIC, &n); if (n.tv_sec - t0.tv_sec > limit) { t.hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; } if (nap < 1000) nap += 1; if (nap > 50) usleep(nap); }
        if (w < 0 || t.hung) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) break;
        if (!WIFSTOPPED(st)) continue;
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { if (WSTOPSIG(st) != SIGTRAP) deliver = WSTOPSIG(st); continue; }
        user_regs_struct r; ptrace(PTRACE_GETREGS, p, 0, &r);
        if (entry) {
            long nr = (long)r.orig_rax; int fd = -1; bool writes = false, sized = false, names = false;
            if (!armed && (nr == 257 || nr == 2 || nr == 437)) { std::string f = peek(p, nr == 2 ? r.rdi : r.rsi); if (f == key || f == "key" || f == "./key" || ((pl.in >= 0 || !pl.bad.empty()) && f.rfind(d.path + "/", 0) == 0)) armed = true; }
            switch (nr) { case 1: case 18: sized = true; [[fallthrough]]; case 20: case 296: case 328: case 40: case 77: case 74: case 75: fd = (int)r.rdi; writes = true; break;
                case 326: case 275: fd = (int)r.rdx; writes = true; break; case 82: case 264: case 316: writes = names = true; break; default: break; }
            if (armed) {
                t.calls++;
                if (kill_next || t.calls - 1 == pl.kill_at) { t.hit = true; t.killed = true; t.at = std::string("before ") + callname(nr); kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            }
            // only the tool's own files, and memory until libcrypto starts (it reads files of its own; that it works is assumed)
            int ic = armed && pl.in >= 0 ? incls(nr) : 0;
            if (ic == 'r' || ic == 's' || ic == 't' || ic == 'l') { std::string f = nr == 4 || nr == 6 ? peek(p, r.rdi) : nr == 262 || nr == 332 ? peek(p, r.rsi) : ""; if (f.empty()) f = fdpath(p, (int)r.rdi); if (f.rfind(d.path + "/", 0)) ic = 0; }
            else if (ic == 'o') { std::string f = peek(p, nr == 2 ? r.rdi : r.rsi); if (f.rfind(d.path + "/", 0)) { ic = 0; foreign = true; } }
            else if (ic && foreign) ic = 0;
            if (armed && !pl.bad.empty() && (nr == 0 || nr == 17) && fdpath(p, (int)r.rdi) == pl.bad) {
                int64_t pos = nr == 17 ? (int64_t)r.r10 : filepos(p, (int)r.rdi);
                if (pos >= pl.bad_from) { t.hit = true; r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); override_ret = true; ret_override = -EIO; }
                else if (pos + (int64_t)r.rdx > pl.bad_from) { restore = r.rdx; do_restore = true; r.rdx = pl.bad_from - pos; ptrace(PTRACE_SETREGS, p, 0, &r); }
            }
            if (ic) {
                t.ins++; bool now = t.ins - 1 == pl.in || (in_cls && pl.keep && (ic == in_cls || (pl.iact == IN_NOMEM && (ic == 'm' || ic == 'b'))));
                if (t.ins - 1 == pl.in) { t.hit = true; t.cls = (char)ic; in_cls = ic; t.at = callname(nr); std::string f = fdpath(p, (int)r.rdi); if (ic == 'r' || ic == 's') t.at += f == key ? " on the key file" : f.rfind(d.path, 0) == 0 ? " on the other file" : ""; }
                if (now) {
                    if (ic == 'r' && pl.iact == IN_SHORT) { if (r.rdx > 1) { restore = r.rdx; do_restore = true; r.rdx /= 2; ptrace(PTRACE_SETREGS, p, 0, &r); } }
                    else { r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); override_ret = true; ret_override = ic == 'b' ? 0 : ic == 'r' && pl.iact == IN_EOF ? 0 : ic == 'm' ? -ENOMEM : pl.iact == IN_EINTR ? -EINTR : pl.iact == IN_NOMEM ? -ENOMEM : ic == 's' && pl.iact == IN_EOF ? -EINVAL : -EIO; }
                }
            }
            if (writes) {
                std::string f = names ? key : fdpath(p, fd); char cls = !names && fd == 1 ? 'o' : f == outpath ? 'o' : f.rfind(d.path + "/", 0) == 0 && f != d.file(".err") ? 'k' : ' ';
                if (cls != ' ' && armed) {
                    t.writes++;
                    if (t.writes - 1 == pl.wr) {
                        t.hit = true; t.cls = cls; t.at = std::string(callname(nr)) + (cls == 'o' ? " to standard output" : " to the key file"); bad_cls = cls; err = pl.act == ERR_FOREVER ? ENOSPC : pl.act == ERR_ONCE ? (pl.wr & 1 ? EINTR : EIO) : ENOSPC;
                        switch (pl.act) {
                        case ERR_FOREVER: fail_now = true; break;
                        case ERR_ONCE: r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); override_ret = true; ret_override = -err; break;
                        case KILL_AFTER: kill_exit = true; break;
                        default: if (sized && r.rdx > 1) { restore = r.rdx; do_restore = true; r.rdx = pl.act == SHORT_THEN_ERR ? 1 : r.rdx / 2; ptrace(PTRACE_SETREGS, p, 0, &r); }
                            if (pl.act == SHORT_THEN_ERR) { fail_now = true; entry = !entry; continue; }
                            if (pl.act == SHORT_THEN_KILL) { kill_next = true; }
                        }
                    }
                    if (fail_now && cls == bad_cls && !override_ret) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); override_ret = true; ret_override = -err; }
                }
            }
        } else {
            if (override_ret) { r.rax = ret_override; ptrace(PTRACE_SETREGS, p, 0, &r); override_ret = false; }
            if (do_restore) { r.rdx = restore; ptrace(PTRACE_SETREGS, p, 0, &r); do_restore = false; }
            if (kill_exit) { t.killed = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        }
        entry = !entry;
    }
    t.exited = WIFEXITED(st); t.code = t.exited ? WEXITSTATUS(st) : -1; t.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    return t;
}
inline bool tracing() {
    static int ok = -1;
    if (ok < 0) { Dir d; int o = open(d.file("o").c_str(), O_CREAT | O_RDWR, 0600); Traced t = trace(d, "/bin/true", {}, o, Plan{}, 20); close(o); ok = t.started && t.exited && t.code == 0; if (!ok) fprintf(stderr, "no tracing\n"); }
    return ok;
}
} // namespace cli
