/* Driver and shadow-memory monitor for the text arena (CharAllocator.h).
 * stdin: one operation per line
 *   N <arena> <initial>    new arena
 *   M <arena> <size>       malloc
 *   R <arena> <size>       extend the most recent block
 *   D <arena>              delete
 *   X                      end of a case: everything is deleted, shadow reset
 * Every block is filled completely with a pattern unique to it; after every
 * operation the monitor re-reads blocks (all of them up to a budget, else the
 * newest ones and a rotating window) and compares with the shadow copy. */
#include "CharAllocator.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>

#define MAXA 8
typedef struct { unsigned char *p; size_t n; uint32_t id; int arena; int alive; } Blk;
static Blk *blk; static size_t nblk, cblk;
static CharArenaAllocator *ar[MAXA]; static long last[MAXA];
static uint32_t nextId = 1;
static long caseNo = 0, opNo = 0, cmps = 0, inPlace = 0, moved = 0;
static volatile long live = 0; static int track = 0;
static void onM(const volatile void *p, size_t n) { if(track) live++; }
static void onF(const volatile void *p) { if(track && p) live--; }

static unsigned char pat(uint32_t id, size_t i) {
    uint32_t x = id * 2654435761u ^ (uint32_t)(i * 40503u); x ^= x >> 15;
    return (unsigned char)(x | 1); /* never zero */
}
static void bad(const char *what, long a, long b) {
    printf("BAD %ld %ld %s %ld %ld\n", caseNo, opNo, what, a, b); fflush(stdout); _exit(3);
}
static void verify(Blk *b) {
    cmps++;
    for(size_t i = 0; i < b->n; i++) if(b->p[i] != pat(b->id, i)) bad("content-changed", (long)b->id, (long)i);
}
static void verifySome(void) {
    size_t budget = 1 << 16; static size_t rot = 0;
    for(size_t k = nblk; k-- > 0 && budget;) { if(!blk[k].alive) continue; verify(&blk[k]); budget = budget > blk[k].n + 8 ? budget - blk[k].n - 8 : 0; }
    for(int j = 0; j < 4 && nblk; j++) { rot = (rot + 1) % nblk; if(blk[rot].alive) verify(&blk[rot]); }
}
static void verifyAll(int arena) { for(size_t k = 0; k < nblk; k++) if(blk[k].alive && (arena < 0 || blk[k].arena == arena)) verify(&blk[k]); }
static void overlap(Blk *b, size_t self) {
    if(!b->n) return;
    for(size_t k = 0; k < nblk; k++) { if(k == self || !blk[k].alive || !blk[k].n) continue;
        if(b->p < blk[k].p + blk[k].n && blk[k].p < b->p + b->n) bad("overlap", (long)b->id, (long)blk[k].id); }
}
static void delA(int a) {
    if(!ar[a]) return;
    verifyAll(a); { int t = track; track = 1; CharArenaAllocator_delete(ar[a]); track = t; } ar[a] = 0; last[a] = -1;
    for(size_t k = 0; k < nblk; k++) if(blk[k].arena == a) blk[k].alive = 0;
    verifyAll(-1);
}
int main(int argc, char **argv) {
    int leak = argc > 1 && !strcmp(argv[1], "leak");
    if(leak) __sanitizer_install_malloc_and_free_hooks(onM, onF);
    char op; long a; size_t n; char line[256];
    for(int i = 0; i < MAXA; i++) last[i] = -1;
    setvbuf(stdin, malloc(1 << 16), _IOFBF, 1 << 16);
    printf("start\n"); fflush(stdout);
    while(fgets(line, sizeof line, stdin)) {
        op = line[0]; a = 0; n = 0; sscanf(line + 1, "%ld %zu", &a, &n); opNo++;
        if(op == 'X') { for(int i = 0; i < MAXA; i++) delA(i); nblk = 0; opNo = 0;
            if(leak && live != 0) { printf("LEAK %ld %ld\n", caseNo, live); fflush(stdout); live = 0; }
            caseNo++; continue; }
        if(op == 'N') { if(ar[a]) delA((int)a); track = 1; ar[a] = CharArenaAllocator_new(n); track = 0; last[a] = -1; if(!ar[a]) bad("new-null", a, (long)n); continue; }
        if(op == 'D') { delA((int)a); continue; }
        if(!ar[a]) continue;
        if(op == 'M') {
            track = 1; unsigned char *p = (unsigned char *)CharArenaAllocator_malloc(ar[a], n); track = 0;
            if(!p) bad("malloc-null", a, (long)n);
            if(n && __asan_region_is_poisoned(p, n)) bad("block-outside-live-memory", a, (long)n);
            for(size_t i = 0; i < n; i++) if(p[i]) bad("not-zeroed", (long)n, (long)i);
            if(nblk == cblk) { cblk = cblk ? cblk * 2 : 1024; blk = realloc(blk, cblk * sizeof *blk); }
            Blk *b = &blk[nblk]; b->p = p; b->n = n; b->id = nextId++; b->arena = (int)a; b->alive = 1;
            overlap(b, nblk); last[a] = (long)nblk; nblk++;
            for(size_t i = 0; i < n; i++) p[i] = pat(b->id, i);
        } else if(op == 'R') {
            if(last[a] < 0) continue;
            Blk *b = &blk[last[a]]; verify(b);
            track = 1; unsigned char *p = (unsigned char *)CharArenaAllocator_realloc(ar[a], n); track = 0;
            if(!p) bad("realloc-null", a, (long)n);
            if(b->n + n && __asan_region_is_poisoned(p, b->n + n)) bad("block-outside-live-memory", a, (long)n);
            if(p == b->p) inPlace++; else moved++;
            for(size_t i = 0; i < b->n; i++) if(p[i] != pat(b->id, i)) bad("content-lost-on-extend", (long)b->n, (long)i);
            for(size_t i = b->n; i < b->n + n; i++) if(p[i]) bad("extension-not-zeroed", (long)n, (long)i);
            b->p = p; b->n += n; overlap(b, (size_t)last[a]);
            for(size_t i = b->n - n; i < b->n; i++) p[i] = pat(b->id, i);
        }
        verifySome();
    }
    printf("done cases=%ld compares=%ld inplace=%ld moved=%ld\n", caseNo, cmps, inPlace, moved); fflush(stdout);
    _exit(0);
}
