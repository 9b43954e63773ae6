/* Linked with ld --wrap in front of the system calls randombytes() may use; every call goes to the harness' script. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
struct os { int (*open)(const char *, int); long (*read)(int, void *, size_t); int (*close)(int); long (*random)(void *, size_t); void (*sleep)(void); };
static struct os os;
void verif_set_os(const struct os *o) { os = *o; }
int __wrap_open(const char *p, int fl, ...) { return os.open(p, fl); }
int __wrap_open64(const char *p, int fl, ...) { return os.open(p, fl); }
int __wrap___open_2(const char *p, int fl) { return os.open(p, fl); }
int __wrap___open64_2(const char *p, int fl) { return os.open(p, fl); }
int __wrap_openat(int d, const char *p, int fl, ...) { (void)d; return os.open(p, fl); }
ssize_t __wrap_read(int f, void *b, size_t n) { return os.read(f, b, n); }
ssize_t __wrap___read_chk(int f, void *b, size_t n, size_t o) { (void)o; return os.read(f, b, n); }
ssize_t __wrap___read_alias(int f, void *b, size_t n) { return os.read(f, b, n); }
int __wrap_close(int f) { return os.close(f); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) { (void)fl; return os.random(b, n); }
int __wrap_getentropy(void *b, size_t n) { if (n > 256) { errno = EIO; return -1; } size_t k = 0; while (k < n) { long r = os.random((char *)b + k, n - k); if (r < 0) return -1; k += r; } return 0; }
unsigned __wrap_sleep(unsigned s) { (void)s; os.sleep(); return 0; }
int __wrap_usleep(unsigned s) { (void)s; os.sleep(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; if (b) memset(b, 0, sizeof *b); os.sleep(); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)f; (void)a; if (b) memset(b, 0, sizeof *b); os.sleep(); return 0; }
int __wrap_sched_yield(void) { os.sleep(); return 0; }
int __wrap_poll(void *p, unsigned long n, int t) { (void)p; (void)n; (void)t; os.sleep(); return 1; }
static ssize_t ck_read(void *c, char *b, size_t n) { return os.read((int)(long)c, b, n); }
static int ck_close(void *c) { return os.close((int)(long)c); }
FILE *__wrap_fopen(const char *p, const char *m) {
    (void)m; int f = os.open(p, 0); if (f < 0) return NULL;
    cookie_io_functions_t io = {ck_read, NULL, NULL, ck_close}; return fopencookie((void *)(long)f, "r", io);
}
