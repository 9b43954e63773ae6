/* Threads with keys of their own; built with ThreadSanitizer together with the library. Arguments: seed, signatures per
   key, then per thread oid,mt,func,n,w,h,d,k,padding. Exit status 0, 1 (wrong result) or the sanitizer's. */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "params.h"
#include "xmss.h"
#include "xmss_core.h"
static __thread uint64_t rs;
void __wrap_randombytes(unsigned char *x, unsigned long long n) { while (n--) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; *x++ = rs >> 40; } }
struct job { unsigned oid, mt; xmss_params p; uint64_t seed; int nsig; uint64_t h; const char *bad; };
static pthread_barrier_t bar; static int use_bar;
static void mixin(struct job *j, const unsigned char *p, size_t n) { while (n--) j->h = (j->h ^ *p++) * 1099511628211ULL; }
static void *work(void *a) {
    struct job *j = a; xmss_params *p = &j->p; unsigned off = j->oid ? 4 : 0; unsigned char *pk, *sk, *sm, *m, msg[40]; unsigned long long n, ml; int i, r, mt = j->oid ? j->mt : p->d > 1;
    rs = j->seed; j->h = 14695981039346656037ULL; if (use_bar) pthread_barrier_wait(&bar);
    if (j->oid) { xmss_params q; if (j->mt ? xmssmt_parse_oid(&q, j->oid) : xmss_parse_oid(&q, j->oid)) { j->bad = "identifier refused"; return 0; } *p = q; }
    else if (xmss_xmssmt_initialize_params(p)) { j->bad = "parameters refused"; return 0; }
    pk = calloc(1, p->pk_bytes + off); sk = calloc(1, p->sk_bytes + off); sm = calloc(1, p->sig_bytes + 40); m = calloc(1, p->sig_bytes + 40);
    r = j->oid ? (j->mt ? xmssmt_keypair : xmss_keypair)(pk, sk, j->oid) : (mt ? xmssmt_core_keypair : xmss_core_keypair)(p, pk, sk);
    if (r) j->bad = "key generation fails";
    mixin(j, pk, p->pk_bytes + off); mixin(j, sk, p->sk_bytes + off);
    for (i = 0; i < j->nsig && !r; i++) {
        memset(msg, i + (int)j->seed, sizeof msg);
        r = j->oid ? (j->mt ? xmssmt_sign : xmss_sign)(sk, sm, &n, msg, 40) : (mt ? xmssmt_core_sign : xmss_core_sign)(p, sk, sm, &n, msg, 40);
        if (r) { if (i < 2) j->bad = "signing fails"; break; }
        mixin(j, sm, n);
        r = j->oid ? (j->mt ? xmssmt_sign_open : xmss_sign_open)(m, &ml, sm, n, pk) : (mt ? xmssmt_core_sign_open : xmss_core_sign_open)(p, m, &ml, sm, n, pk);
        if (r || ml != 40 || memcmp(m, msg, 40)) j->bad = "verification fails";
        sm[(i * 131 + 5) % n] ^= 1;
        r = j->oid ? (j->mt ? xmssmt_sign_open : xmss_sign_open)(m, &ml, sm, n, pk) : (mt ? xmssmt_core_sign_open : xmss_core_sign_open)(p, m, &ml, sm, n, pk);
        if (!r) j->bad = "verification accepts a changed signature";
        r = 0;
    }
    free(pk); free(sk); free(sm); free(m); return 0;
}
static void *noop(void *a) { return a; }
int main(int argc, char **argv) {
    struct job j[8], k[8]; pthread_t t[8]; int i, n = argc - 3;
    if (argc == 2) { pthread_create(t, 0, noop, 0); pthread_join(t[0], 0); puts("probe fine"); return 0; }
    if (n < 1) return 3;
    if (n > 8) n = 8;
    for (i = 0; i < n; i++) {
        int f; memset(&j[i], 0, sizeof j[i]);
        if (sscanf(argv[i + 3], "%u,%u,%d,%u,%u,%u,%u,%u,%u", &j[i].oid, &j[i].mt, &f, &j[i].p.n, &j[i].p.wots_w, &j[i].p.full_height, &j[i].p.d, &j[i].p.bds_k, &j[i].p.padding_len) != 9) return 3;
        j[i].p.func = f; j[i].seed = strtoull(argv[1], 0, 10) + (unsigned)i / 2; j[i].nsig = atoi(argv[2]); k[i] = j[i];
    }
    pthread_barrier_init(&bar, 0, n); use_bar = 1;
    for (i = 0; i < n; i++) if (pthread_create(&t[i], 0, work, &j[i])) return 3;
    for (i = 0; i < n; i++) pthread_join(t[i], 0);
    use_bar = 0;
    for (i = 0; i < n; i++) {
        if (j[i].bad) { printf("%s (%s)\n", j[i].bad, argv[i + 3]); return 1; }
        work(&k[i]); if (k[i].h != j[i].h) { printf("results differ from a run alone (%s)\n", argv[i + 3]); return 1; }
    }
    return 0;
}
