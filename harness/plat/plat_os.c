/* Hosted side of plat.c: heap memory with chosen contents, pipes. */
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void *blocks[64]; static int nb, fill_ = 0x11;
void *os_alloc(uint32_t n) { void *p = malloc(n ? n : 1); if (!p) _exit(4); if (nb < 64) blocks[nb++] = p; return p; }
/* fill >= 0: gives everything back; below: only sets the contents of memory allocated from now on */
void os_reset(int fill) {
    if (fill >= 0) { while (nb) free(blocks[--nb]); fill_ = fill; } else fill_ = -1 - fill;
#ifndef __clang__
    mallopt(M_PERTURB, fill_ ^ 0xff ? fill_ ^ 0xff : 1);
#endif
}
int os_read(void *p, uint32_t n) { uint8_t *c = p; while (n) { ssize_t r = read(0, c, n); if (r <= 0) return 1; c += r; n -= (uint32_t)r; } return 0; }
void os_write(const void *p, uint32_t n) { const uint8_t *c = p; while (n) { ssize_t r = write(1, c, n); if (r <= 0) _exit(0); c += r; n -= (uint32_t)r; } }
void os_end(int s) { _exit(s); }
